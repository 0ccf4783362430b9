# -*- coding: utf-8 -*-
"""C40: arguments left out mean their documented defaults."""
import contextlib
import io
import shutil
import tempfile
import warnings
from collections import Counter
from mon import text
from mon.canon import canon, counts, differ, inner, lview, rview
from checks.c22 import reference
from checks.nounlib import real_corpus, tiny_corpus

RULE = '''Every public function, constructor and method with optional arguments x generated data on which the argument matters x calls that
leave all, some or none of the optional arguments out, or give them by position. Oracle: all those calls give the same result when the
arguments given have their documented default values. Another value of an argument has to give another result in some case (observed
per argument), so that the data can tell. Non-trivial: such a difference was seen in the case.'''


def run(m):
    import numpy as np
    from scipy.sparse import csr_matrix
    from soynlp import hangle, lemmatizer, normalizer, tokenizer
    from soynlp.noun import LRNounExtractor, LRNounExtractor_v2, NewsNounExtractor
    from soynlp.pos import NewsPOSExtractor, ChatPOSExtractor
    from soynlp.postagger import (Dictionary, EojeolTemplateMatcher, LREvaluator, LRTemplateMatcher, SimpleEojeolEvaluator,
                                  SimpleTagger, UnknowLRPostprocessor)
    from soynlp.predicator import PredicatorExtractor, EomiExtractor, StemExtractor
    from soynlp.tokenizer import LTokenizer, MaxLRScoreTokenizer, MaxScoreTokenizer, NounLMatchTokenizer, NounMatchTokenizer, RegexTokenizer
    from soynlp.utils import DoublespaceLineCorpus, EojeolCounter, LRGraph, most_similar
    from soynlp.utils.math import svd
    from soynlp.vectorizer import BaseVectorizer, sent_to_word_contexts_matrix
    from soynlp.word import Bigram, WordExtractor, pmi
    PARTS = {}

    def part(name, params, data, weight=1):
        """params: (argument, default, other values ...) in the order of the signature"""
        def put(f):
            PARTS[name] = (params, data, f, weight)
            return f
        return put

    # ------------------------------------------------------------------ text
    def rough(rng):
        return ''.join(rng.choice((text.hostile(rng), text.emoticon(rng), text.sentence(rng, 1, 3), rng.choice('ㅋ가a1!(') * rng.randrange(2, 7), rng.choice('ㅋ가a1') * rng.randrange(4, 7) + '(가!')) for _ in range(3))

    reps = ('num_repeats', 2, 0, 1, 3)
    flags = lambda *names: [(n, False, True) for n in names]  # noqa: E731

    @part('emoticon_normalize', [reps], rough)
    def _(d, a, k):
        return normalizer.emoticon_normalize(d, *a, **k)

    @part('repeat_normalize', [reps], rough)
    def _(d, a, k):
        return normalizer.repeat_normalize(d, *a, **k)

    @part('normalize', flags('alphabet', 'number', 'punctuation', 'symbol') + [('remove_repeat', 0, 2)], rough)
    def _(d, a, k):
        return normalizer.normalize(d, *a, **k)

    @part('hangle.normalize', flags('english', 'number', 'punctuation') + [('remove_repeat', 0, 2), ('remains', {}, {'('})], rough)
    def _(d, a, k):
        return hangle.normalize(d, *a, **k)

    @part('tokenizer.normalize', [('num_repeat', 2, 0, 1, 3)], rough)
    def _(d, a, k):
        return tokenizer.normalize(d, *a, **k)

    @part('levenshtein', [('cost', {}, {('가', '나'): .25})], lambda rng: [''.join(rng.choice('가나다') for _ in range(4)) for _ in range(2)])
    def _(d, a, k):
        return hangle.levenshtein(d[0], d[1], *a, **k)

    def pair(rng):
        return rng.choice(text.VERBS), rng.choice(list(text.ENDS) + ['ㄴ', 'ㄹ', '어라', '아요', '어요', '었어', '아도'])

    @part('conjugate', [('enforce_moum_harmoney', False, True)], pair)
    def _(d, a, k):
        return lemmatizer.conjugate(*d, *a, **k)

    @part('conjugate_chat', [('enforce_moum_harmoney', False, True)], pair)
    def _(d, a, k):
        return lemmatizer.conjugate_chat(*d, *a, **k)

    @part('lemma_candidate', [('predefined', None, {('가', '는'): ('날',)}), ('debug', False)], pair)
    def _(d, a, k):
        words = sorted(reference(*d)[0]) + ['가는']
        return [[lemmatizer.lemma_candidate(w[:i], w[i:], *a, **k), lemmatizer.lemma_candidate_chat(w[:i], w[i:], *a, **k)] for w in words for i in range(1, len(w) + 1)]

    @part('Lemmatizer', [('predefined', None, {('가', '는'): ('날',)})], pair)
    def _(d, a, k):
        x = lemmatizer.Lemmatizer({d[0], '날', '붇', '그렇'}, {d[1], '는', '어'}, *a, **k)
        return [[x.lemmatize(w), x.candidates(w)] for w in sorted(reference(*d)[0])[:4] + ['가는', '불어', '그래']]

    @part('distances', [('unitfy', None)], lambda rng: [''.join(rng.choice('가나다') for _ in range(rng.randrange(1, 6))) for _ in range(2)])
    def _(d, a, k):
        from collections import Counter as C
        f, g = (C, set) if a or k else (None, None)
        return [hangle.cosine_distance(*d, *([f] if f else [])), hangle.jaccard_distance(*d, **({'unitfy': g} if g else {}))]

    @part('lemmatize', [('check_only_stem', False, True)],
          lambda rng: (rng.sample(text.VERBS, 12), rng.sample(text.ENDS, 8), [rng.choice(sorted(reference(*pair(rng))[0]) or ['먹다']) for _ in range(6)]))
    def _(d, a, k):
        x = lemmatizer.Lemmatizer(set(d[0]), set(d[1]))
        return [x.lemmatize(w, *a, **k) for w in d[2]]

    # ------------------------------------------------------------------ tokenizers
    def scored(rng):
        ws = [text.syllable(rng) for _ in range(4)]
        words = [''.join(rng.choice(ws) for _ in range(rng.randrange(2, 14))) for _ in range(6)]
        table = {w[i:j]: rng.choice((-.5, -.1, .1, .3, .5, .52, .6, .8, .81)) for w in words for i in range(len(w)) for j in range(i + 1, len(w) + 1) if rng.random() < .3}
        return table, ' '.join(words)

    @part('LTokenizer', [('scores', None, {'가나': 1})], scored)
    def _(d, a, k):
        return LTokenizer(*a, **k).tokenize('가나다 가다나 ' + d[1])

    @part('LTokenizer-default_score', [('default_score', 0.0, .4, -.3)], scored)
    def _(d, a, k):
        return LTokenizer(d[0], *a, **k).tokenize(d[1])

    for call in ('tokenize', '__call__'):
        @part('LTokenizer.' + call, [('tolerance', 0.0, .25), ('flatten', True, False), ('remove_r', False, True)], scored)
        def _(d, a, k, call=call):
            return getattr(LTokenizer(d[0]), call)(d[1], *a, **k)

        @part('MaxScoreTokenizer.' + call, [('flatten', True, False)], scored)
        def _(d, a, k, call=call):
            return getattr(MaxScoreTokenizer(d[0]), call)(d[1], *a, **k)

        @part('RegexTokenizer.' + call, [('debug', call == '__call__'), ('flatten', True, False)], rough)
        def _(d, a, k, call=call):
            return getattr(RegexTokenizer(), call)(d, *a, **k)

        @part('NounLMatchTokenizer.' + call, [('compose_compound', True, False)], scored)
        def _(d, a, k, call=call):
            return getattr(NounLMatchTokenizer(d[0]), call)(d[1], *a, **k)

        @part('NounMatchTokenizer.' + call, [('flatten', True, False), ('compose_compound', True, False)], scored)
        def _(d, a, k, call=call):
            return getattr(NounMatchTokenizer(d[0]), call)(d[1], *a, **k)

        @part('MaxLRScoreTokenizer.' + call, [('debug', call == '__call__', call != '__call__'), ('flatten', True, False)], scored)
        def _(d, a, k, call=call):
            return getattr(MaxLRScoreTokenizer(*lr(d)), call)(d[1], *a, **k)

    @part('MaxScoreTokenizer', [('max_length', 10, 9, 11), ('default_score', 0.0, .4, -.3)], scored)
    def _(d, a, k):
        return MaxScoreTokenizer(d[0], *a, **k).tokenize(d[1], flatten=False)

    def lr(d):
        words = sorted(d[0])
        return {w: abs(d[0][w]) for w in words[::2]}, {w: abs(d[0][w]) for w in words[1::2]}

    @part('MaxLRScoreTokenizer', [('preference_l', None), ('preference_r', None), ('lrgraph', None), ('tokenizer_builder', None),
                                  ('max_lscore_difference', .3, .1, .6), ('max_lscore_diffratio', .5, .01, 5.),
                                  ('ensurable_score_l', .5, .3, .7), ('ensurable_score_lr_diff', .3, .01, .9)], scored, 3)
    def _(d, a, k):
        return MaxLRScoreTokenizer(*lr(d), *a, **k).tokenize(d[1], flatten=False)

    # ------------------------------------------------------------------ corpora, counters, graphs
    def lines(rng):
        return ['  '.join(text.sentence(rng, 1, 3) for _ in range(rng.randrange(3))) for _ in range(rng.randrange(1, 9))]

    @part('DoublespaceLineCorpus', [('num_doc', -1, 2), ('num_sent', -1, 2), ('iter_sent', False, True), ('skip_header', 0, 1)], lines)
    def _(d, a, k):
        with scratch() as p:
            with open(p + 'x.txt', 'w', encoding='utf-8') as f:
                f.write('\n'.join(d) + '\n')
            c = DoublespaceLineCorpus(p + 'x.txt', *a, **k)
            return list(c), len(c)

    def wordy(rng):
        ws = [''.join(text.syllable(rng) for _ in range(n)) for n in (1, 1, 2, 3, 9, 10, 11, 12, 15, 16, 17, 20)]
        return [' '.join(rng.choice(ws) for _ in range(rng.randrange(1, 6))) for _ in range(rng.choice((3, 10, 40)))]

    @part('EojeolCounter', [('min_count', 1, 2), ('max_length', 15, 14, 16), ('filtering_checkpoint', 0), ('verbose', False), ('preprocess', None, lambda s: s[1:])], wordy)
    def _(d, a, k):
        return dict(EojeolCounter(list(d), *a, **k).items())

    @part('EojeolCounter.to_lrgraph', [('l_max_length', 10, 9, 11), ('r_max_length', 9, 8, 10), ('ignore_one_syllable', False, True)], wordy)
    def _(d, a, k):
        g = EojeolCounter(list(d), max_length=99).to_lrgraph(*a, **k)
        return lview(g), rview(g)

    @part('EojeolCounter.get_uncovered_eojeols', [('min_count', 0, 3)], wordy)
    def _(d, a, k):
        x = EojeolCounter(list(d))
        x.remove_covered_eojeols(set(sorted(counts(x))[::3]))
        return x.get_uncovered_eojeols(*a, **k)

    @part('LRGraph', [('l_max_length', 10, 9, 11), ('r_max_length', 9, 8, 10)], wordy)
    def _(d, a, k):
        g = LRGraph(None, list(d), *a, **k)
        return lview(g), rview(g)

    @part('LRGraph.add_eojeol', [('count', 1, 3)], wordy)
    def _(d, a, k):
        g = LRGraph()
        for w in d[0].split():
            g.add_eojeol(w, *a, **k)
            g.add_lr_pair(w, w, *a, **k)
        return lview(g), rview(g)

    @part('LRGraph.remove_eojeol', [('count', 1, 2)], wordy)
    def _(d, a, k):
        g = LRGraph(sents=list(d))
        for w in d[0].split():
            g.remove_eojeol(w, *a, **k)
            g.remove_lr_pair(w[:1], w[1:], *a, **k)
        return lview(g), rview(g)

    def ranked(rng):
        ls = [text.syllable(rng) for _ in range(rng.choice((9, 10, 11, 14)))]
        return {l: {'가': i + 1, l: 1} for i, l in enumerate(dict.fromkeys(ls))}

    @part('LRGraph.get_l', [('topk', 10, 9, 11)], ranked)
    def _(d, a, k):
        return LRGraph(lrgraph={l: dict(r) for l, r in d.items()}).get_l('가', *a, **k)

    @part('LRGraph.get_r', [('topk', 10, 9, 11)], ranked)
    def _(d, a, k):
        return LRGraph(lrgraph={'가': {l: r['가'] for l, r in d.items()}}).get_r('가', *a, **k)

    @part('LRGraph.to_EojeolCounter', [('reset_lrgraph', False, True)], wordy)
    def _(d, a, k):
        g = LRGraph(sents=list(d))
        g = LRGraph(lrgraph=lview(g))
        g.add_eojeol('가나다')
        return dict(g.to_EojeolCounter(*a, **k).items()), lview(g)

    def vectors(rng):
        x = np.random.RandomState(rng.randrange(10 ** 6)).rand(rng.choice((9, 11, 12, 20)), 4)
        return x, rng.randrange(9)

    @part('most_similar', [('topk', 10, 9, 11)], vectors)
    def _(d, a, k):
        names = ['i%d' % i for i in range(len(d[0]))]
        return most_similar(names[d[1]], d[0], {n: i for i, n in enumerate(names)}, names, *a, **k)

    @part('svd', [('n_iter', 5, 1)], lambda rng: np.random.RandomState(rng.randrange(10 ** 6)).rand(60, 40))
    def _(d, a, k):
        return [np.abs(x) for x in svd(csr_matrix(d), 3, *a, random_state=7, **k)] if not a else [np.abs(x) for x in svd(csr_matrix(d), 3, *a, 7)]

    # ------------------------------------------------------------------ words
    def small(rng):
        ws = [text.syllable(rng) + text.syllable(rng) for _ in range(4)] + ['가', 'A나']
        return [' '.join(rng.choice(ws) for _ in range(rng.randrange(1, 7))) for _ in range(rng.choice((8, 20, 60)))]

    @part('BaseVectorizer', [('min_tf', 0, 4, 9), ('max_tf', 99999999, 5, 12), ('min_df', 0, 4, 9), ('max_df', 1.0, .2, .5), ('stopwords', None, {'가'}), ('lowercase', True)], small)
    def _(d, a, k):
        v = BaseVectorizer(str.split, *a, verbose=False, **k)
        x = v.fit_transform(list(d))
        return v.vocabulary_, x.toarray()

    @part('BaseVectorizer-tokenizer', [('tokenizer', lambda s: s.split(), list)], small)
    def _(d, a, k):
        v = BaseVectorizer(*a, verbose=False, **k)
        return v.fit_transform(list(d)).toarray()

    @part('sent_to_word_contexts_matrix', [('windows', 3, 2, 4), ('min_tf', 10, 9, 11), ('tokenizer', lambda s: s.split(), list), ('dynamic_weight', False, True), ('verbose', True)], small)
    def _(d, a, k):
        x, names = sent_to_word_contexts_matrix(list(d), *a, **k)
        return x.toarray(), names

    @part('Bigram', [('min_frequency', 5, 4, 6), ('verbose', True), ('score', 'frequency', 'pmi', 'mikolov')], small)
    def _(d, a, k):
        b = Bigram(None, *a, **k)
        b.train(list(d))
        return b.extract(-1, -99)

    @part('Bigram.extract', [('topk', -1, 1), ('threshold', 0, 8, 20)], small)
    def _(d, a, k):
        b = Bigram(None, 1, False)
        b.train(list(d))
        return b.extract(*a, **k)

    @part('Bigram.extract-pmi', [('topk', -1, 1), ('threshold', 0, -9, 1.5)], small)
    def _(d, a, k):
        b = Bigram(None, 1, False, 'pmi')
        b.train(list(d))
        return b.extract(*a, **k)

    @part('pmi', [('py', None), ('min_pmi', 0, -.5, .5), ('alpha', 0.0, .01), ('beta', 1, .75)], lambda rng: np.random.RandomState(rng.randrange(10 ** 6)).randint(0, 9, (6, 6)))
    def _(d, a, k):
        x, px, py = pmi(csr_matrix(d), *a, **k)
        return x.toarray(), px, py

    def wcorpus(rng):
        ws = [''.join(text.syllable(rng) for _ in range(rng.choice((1, 2, 3)))) for _ in range(8)]
        ws += [ws[0] + ''.join(text.syllable(rng) for _ in range(n)) for n in (6, 7, 9, 10)]
        return [' '.join(rng.choice(ws) + rng.choice(('', '', '는', '에서', '이', '은', '을', '와')) for _ in range(4)) for _ in range(rng.choice((15, 60)))]

    @part('WordExtractor', [('max_left_length', 10, 9, 11), ('max_right_length', 6, 5, 7), ('min_frequency', 5, 4, 6), ('verbose_points', 100000),
                            ('min_cohesion_forward', .05, .0, .3), ('min_cohesion_backward', 0., .4), ('max_droprate_cohesion', .98),
                            ('max_droprate_leftside_frequency', .98), ('min_left_branching_entropy', 0., .7),
                            ('min_right_branching_entropy', 0., .7), ('min_left_accessor_variety', 0, 2), ('min_right_accessor_variety', 0, 2),
                            ('remove_subwords', False, True)], wcorpus, 3)
    def _(d, a, k):
        w = WordExtractor(None, *a, **k)
        w.train(list(d))
        return w.extract(), w.L, w.R

    @part('WordExtractor-subwords', [('max_droprate_cohesion', .98), ('max_droprate_leftside_frequency', .98, .5, 9.)], wcorpus)
    def _(d, a, k):
        w = WordExtractor(None, 10, 6, 5, 0, .05, .0, *a, remove_subwords=True, **k)
        w.train(list(d))
        return w.extract()

    @part('WordExtractor.train', [('num_for_pruning', 0, 5), ('cumulate', True, False)], wcorpus)
    def _(d, a, k):
        w = WordExtractor()
        w.train(list(d[:9]), *a, **k)
        w.train(list(d[9:]), *a, **k)
        return w.L, w.R

    @part('WordExtractor.extract', [('scores', None)], wcorpus)
    def _(d, a, k):
        w = WordExtractor(list(d))
        return w.extract(*a, **k)

    # ------------------------------------------------------------------ nouns
    def ncorpus(rng):
        out = real_corpus(rng, rng.choice((10, 40, 100))) if rng.random() < .7 else tiny_corpus(rng, 40)
        if rng.random() < .6:
            N = ''.join(text.syllable(rng) for _ in range(rng.choice((9, 10, 10, 11))))
            out += [N + j for j in ('은', '는', '이', '을', '에서', '에게는', '으로부터는', '이라고하는데는')] * 6
        for N in (rng.choice(text.NOUNS), text.syllable(rng) + text.syllable(rng)):
            k = rng.choice((1, 3, 4, 5, 6, 29, 30, 31, 31))
            out += [N] * k + [N + '은'] * rng.choice((0, 1, 2, 5))
        return out

    @part('LRNounExtractor', [('max_left_length', 10, 9, 11), ('max_right_length', 7, 3, 8), ('predictor_fnames', None), ('verbose', True), ('min_num_of_features', 1, 0, 2),
                              ('ensure_normalized', False, True)], lambda rng: ncorpus(rng) + ['한국(서울)의 정부!는 나라,'] * 6)
    def _(d, a, k):
        return LRNounExtractor(*a, **k).train_extract(list(d), .1, 1)

    @part('LRNounExtractor.train_extract', [('min_noun_score', .5, .2, .7), ('min_noun_frequency', 5, 4, 6), ('noun_candidates', None, {'나라', '대통령'})], ncorpus)
    def _(d, a, k):
        return LRNounExtractor(verbose=False).train_extract(list(d), *a, **k)

    @part('LRNounExtractor.extract', [('min_noun_score', .5, .2, .7), ('min_noun_frequency', 5, 4, 6), ('noun_candidates', None, {'나라', '대통령'})], ncorpus)
    def _(d, a, k):
        x = LRNounExtractor(verbose=False)
        x.train(list(d), 1)
        return x.extract(*a, **k)

    @part('LRNounExtractor.train', [('min_noun_frequency', 5, 4, 6)], ncorpus)
    def _(d, a, k):
        x = LRNounExtractor(verbose=False)
        x.train(list(d), *a, **k)
        return x.extract(.1, 1)

    @part('LRNounExtractor.is_noun', [('min_noun_score', .5, .1, .9)], ncorpus)
    def _(d, a, k):
        x = LRNounExtractor(verbose=False)
        x.train(list(d), 1)
        ws = sorted({w[:i] for s in d for w in s.split() for i in (2, 3)})
        return [x.is_noun(w, *a, **k) for w in ws]

    @part('LRNounExtractor.predict', [('min_noun_score', .5, .1, .9), ('nouns', None)], ncorpus)
    def _(d, a, k):
        x = LRNounExtractor(verbose=False)
        x.train(list(d), 1)
        ws = sorted({w[:i] for s in d for w in s.split() for i in (2, 3)})
        return [x.predict(w, *a, **k) for w in ws]

    @part('LRNounExtractor_v2', [('max_left_length', 10, 9, 11), ('max_right_length', 9, 3), ('predictor_headers', None), ('verbose', True), ('min_num_of_features', 1, 2, 3),
                                 ('max_frequency_when_noun_is_eojeol', 30, 29, 31, 3), ('eojeol_counter_filtering_checkpoint', 500000), ('extract_compound', True, False),
                                 ('extract_pos_feature', False), ('extract_determiner', False), ('ensure_normalized', False, True),
                                 ('postprocessing', None), ('logpath', None)], lambda rng: ncorpus(rng) + ['한국(서울)의 정부!는 나라,'] * 3, 3)
    def _(d, a, k):
        return LRNounExtractor_v2(*a, **k).train_extract(list(d))

    @part('LRNounExtractor_v2.train_extract', [('min_noun_score', .3, .1, .6), ('min_noun_frequency', 1, 3), ('min_eojeol_frequency', 1, 2), ('reset_lrgraph', True, False)], ncorpus)
    def _(d, a, k):
        x = LRNounExtractor_v2(verbose=False)
        return x.train_extract(list(d), *a, **k), lview(x.lrgraph)

    @part('LRNounExtractor_v2.train', [('min_eojeol_frequency', 1, 2)], ncorpus)
    def _(d, a, k):
        x = LRNounExtractor_v2(verbose=False)
        x.train(list(d), *a, **k)
        return lview(x.lrgraph)

    @part('LRNounExtractor_v2.extract', [('min_noun_score', .3, .1, .6), ('min_noun_frequency', 1, 3), ('reset_lrgraph', True, False)], ncorpus)
    def _(d, a, k):
        x = LRNounExtractor_v2(verbose=False)
        x.train(list(d))
        return x.extract(*a, **k), lview(x.lrgraph)

    @part('LRNounExtractor_v2.predict', [('min_noun_score', .3, .05, .9)], ncorpus)
    def _(d, a, k):
        x = LRNounExtractor_v2(verbose=False)
        x.train(list(d))
        return [x.predict(w, *a, **k) for w in sorted({w[:i] for s in d for w in s.split() for i in (2, 3)})]

    def particles(rng):
        """new endings after many nouns, with amounts around the default limits"""
        ns = [text.syllable(rng) + text.syllable(rng) for _ in range(rng.choice((6, 8, 12)))]
        out = Counter()
        for n in ns:
            k = rng.choice((24, 25, 25, 26, 40, 60))        # four times 25 reach the 100
            for j in ('은', '는', '에서', '을'):
                out[n + j] += k
        for e in ('냥', '쿠', '핰', '쀼'):
            part = rng.sample(ns, rng.choice((3, 4, 5, 6)))
            if rng.random() < .3:
                part += [w[0] + part[0][-1] for w in part]
            total = rng.choice((990, 1000, 1010, 1500))
            even = rng.random() < .6
            for i, n in enumerate(part):
                out[n + e] += total // len(part) + (total % len(part) if i == 0 else 0) if even else max(1, total // 2 ** (i + 1))
            if rng.random() < .5:
                for n in part:
                    out[n[0] + e] += rng.choice((10, 100))
        return out

    @part('LRNounExtractor_v2.extract_domain_pos_features', [
        ('noun_candidates', None), ('ignore_features', None, {'냥'}), ('append_extracted_features', True, False), ('min_noun_score', .3),
        ('min_noun_frequency', 100, 95, 105, 130), ('min_pos_score', .3, -.5, 1.01), ('min_pos_feature_frequency', 1000, 900, 1100),
        ('min_num_of_unique_lastchar', 4, 3, 5, 6), ('min_entropy_of_lastchar', .5, 1.78), ('min_noun_entropy', 1.5, 1.2, 1.78)], particles, 3)
    def _(d, a, k):
        x = LRNounExtractor_v2(verbose=False)
        x.train([' '.join([w] * n) for w, n in d.items()])
        x.extract_domain_pos_features(*a, **k)
        return [x.predict(w) for w in sorted({w[:-1] for w in d})], inner(x, '_pos_features')

    @part('NewsNounExtractor', [('max_left_length', 10, 9, 4), ('max_right_length', 7, 2), ('predictor_fnames', None), ('verbose', True), ('base_noun_dictionary', None, {'가나', '나라'})], ncorpus)
    def _(d, a, k):
        return NewsNounExtractor(*a, **k).train_extract(list(d))

    @part('NewsNounExtractor.train_extract', [('min_frequency', 3, 2, 4), ('min_noun_score', .4, .1, .8), ('noun_candidates', None), ('min_feature_proportion', .6)], ncorpus, 2)
    def _(d, a, k):
        return NewsNounExtractor(verbose=False, base_noun_dictionary={'가나'}).train_extract(list(d), *a, **k)

    @part('NewsNounExtractor.extract', [('min_noun_score', .4, .1, .8), ('min_frequency', 3, 2, 4), ('noun_candidates', None), ('min_feature_proportion', .6)], ncorpus, 2)
    def _(d, a, k):
        x = NewsNounExtractor(verbose=False, base_noun_dictionary={'가나'})
        x.train(list(d))
        return x.extract(*a, **k)

    # ------------------------------------------------------------------ predicates
    def forms(rng):
        """counts of known and unknown stems with known and unknown endings around the default limits"""
        stems = rng.sample([s for s in text.VERBS if len(s) < 3], 9)
        ends = [e for e in text.ENDS if 'ㅂ' not in e]
        known, new = stems, [text.syllable(rng) + text.syllable(rng) + x for x in ('하', '되', '거리')]
        cnt = Counter()
        for s in known + new:
            for e in rng.sample(ends, rng.choice((9, 12, 16, 18))) if s in new else rng.sample(ends, rng.choice((3, 8))):
                for w in sorted(reference(s, e)[0])[:1]:
                    cnt[w] += rng.choice((4, 8, 10, 12, 20)) if s in new else rng.choice((1, 1, 2, 3))
        for e, n in (('냥', rng.choice((4, 5, 6))), ('쿠요', rng.choice((4, 5, 6)))):
            for s in rng.sample([s for s in known if True], n):
                cnt[s + e] += rng.choice((1, 2))
            for _ in range(rng.choice((0, 1, 2, 3, 4, 6))):
                cnt[text.syllable(rng) + text.syllable(rng) + e] += 1
        return cnt, known, ends, new

    def rough_forms(rng):
        """also unknown stems with one frequent word, and with parts after them that are no endings"""
        cnt, known, ends, new = forms(rng)
        for s in new:
            mine = sorted(w for w in cnt if w[:2] == s[:2])
            if mine and rng.random() < .6:
                cnt[rng.choice(mine)] += rng.choice((100, 400))
            for e in ('냥냥', '쿠쿠', '뇽뇽')[:rng.choice((0, 1, 2, 3))]:
                cnt[s + e] += rng.choice((3, 30))
        return cnt, known, ends, new

    def exploded(d):
        return [' '.join([w] * n) for w, n in d[0].items()]

    learning = [('min_num_of_features', 5, 4, 6), ('min_eomi_score', .3, .1, .6), ('min_eomi_frequency', 1, 8), ('min_num_of_unique_R_char', 10, 9, 5, 12),
                ('min_entropy_of_R_char', .5, 2.2, 2.3), ('min_entropy_of_R', 1.5), ('min_stem_score', .7, .3, 1.1), ('min_stem_frequency', 100, 60, 110)]

    @part('EomiExtractor', [('min_num_of_features', 5, 4, 6), ('verbose', True), ('logpath', None)], forms)
    def _(d, a, k):
        return EomiExtractor(EojeolCounter(exploded(d)).to_lrgraph(), set(d[1]), set(), *a, **k).extract()

    @part('EomiExtractor.extract', [('condition', None, '냥'), ('min_eomi_score', .3, .1, .6), ('min_eomi_frequency', 1, 8), ('reset_lrgraph', True)], forms)
    def _(d, a, k):
        return EomiExtractor(EojeolCounter(exploded(d)).to_lrgraph(), set(d[1]), set(), verbose=False).extract(*a, **k)

    @part('StemExtractor', [('min_num_of_unique_R_char', 10, 9, 5, 12), ('min_entropy_of_R_char', .5, 2.2, 2.3), ('min_entropy_of_R', 1.5), ('verbose', True)], rough_forms, 2)
    def _(d, a, k):
        return StemExtractor(EojeolCounter(exploded(d)).to_lrgraph(), set(d[1]), set(d[2]), *a, **k).extract(min_stem_score=.5, min_stem_frequency=30)

    @part('StemExtractor.extract', [('L_ignore', None, 'new'), ('min_stem_score', .7, .3, 1.1), ('min_stem_frequency', 100, 60, 110)], rough_forms, 2)
    def _(d, a, k):
        a = tuple(set(d[3]) if x == 'new' else x for x in a)
        k = {n: set(d[3]) if x == 'new' else x for n, x in k.items()}
        return StemExtractor(EojeolCounter(exploded(d)).to_lrgraph(), set(d[1]), set(d[2]), 5, .1, verbose=False).extract(*a, **k)

    @part('PredicatorExtractor.train', [('min_eojeol_frequency', 2, 1, 3), ('filtering_checkpoint', 100000)] + learning, rough_forms, 3)
    def _(d, a, k):
        x = PredicatorExtractor({'나라'}, set(), set(d[1][:3]), set(d[1][3:]), set(d[2]), True, True, False)
        x.train(exploded(d) + [w + ' ' + v for w, v in zip(sorted(d[0])[::7], sorted(d[0])[3::7])], *a, **k)
        return x.extract(), inner(x, '_eomis', '_stems')

    @part('StemExtractor.predict', [('min_stem_score', .7, .3, 1.1), ('min_frequency', 1, 100), ('debug', False)], rough_forms, 2)
    def _(d, a, k):
        x = StemExtractor(EojeolCounter(exploded(d)).to_lrgraph(), set(d[1]), set(d[2]), 5, .1, verbose=False)
        x.extract()
        return [x.predict(w, *a, **k) for w in d[3] + d[1] + [s + e for s in d[3] for e in ('냥', '쿠')]]

    @part('PredicatorExtractor', [('josas', None), ('adjectives', None), ('verbs', None), ('eomis', None, {'고', '다'})], lambda rng: forms(rng) + (['먹고 가서 놀고 춥다 추워 추워서'] * 3,))
    def _(d, a, k):
        x = PredicatorExtractor({'나라', '나라다'}, *a, verbose=False, **k)
        return x.train_extract(exploded(d) + d[4], 1)

    @part('PredicatorExtractor-options', [('extract_eomi', False, True), ('extract_stem', False, True), ('verbose', True), ('ensure_normalized', False, True)],
          lambda rng: forms(rng) + (['먹고! 가서(놀고) 춥다'] * 3,), 2)
    def _(d, a, k):
        x = PredicatorExtractor({'나라', '나라다'}, {'은'}, set(d[1][:3]), set(d[1][3:]), set(d[2]), *a, **k)
        return x.train_extract(exploded(d) + d[4], 1, min_stem_frequency=50, min_num_of_unique_R_char=5)

    @part('PredicatorExtractor.train_extract', [('min_eojeol_frequency', 2, 1, 3), ('filtering_checkpoint', 100000), ('candidates', None, {'먹고'}), ('min_predicator_frequency', 1, 5),
                                                ('reset_lrgraph', True)] + learning, rough_forms, 3)
    def _(d, a, k):
        x = PredicatorExtractor({'나라'}, set(), set(d[1][:3]), set(d[1][3:]), set(d[2]), True, True, False)
        return x.train_extract(exploded(d) + [w + ' ' + v for w, v in zip(sorted(d[0])[::7], sorted(d[0])[3::7])], *a, **k), inner(x, '_eomis', '_stems')

    @part('PredicatorExtractor.extract', [('candidates', None, {'먹고'}), ('min_predicator_frequency', 1, 3)], forms)
    def _(d, a, k):
        x = PredicatorExtractor({'나라'}, set(), set(d[1][:3]), set(d[1][3:]), set(d[2]), verbose=False)
        x.train(exploded(d), 1)
        return x.extract(*a, **k)

    # ------------------------------------------------------------------ parts of speech
    def pcorpus(rng):
        d = forms(rng)
        ws = [w for w in d[0] if rng.random() < .5] + [text.eojeol(rng) for _ in range(60)] + [e + x for e in rng.sample(text.NOUNS, 3) for x in ('은', '는', '', '은')]
        ws += [rng.choice(text.VERBS) + '쿠' for _ in range(9)] + ['아이유'] * rng.choice((29, 30, 31, 32)) + ['아이유는']
        rng.shuffle(ws)
        return [' '.join(ws[i:i + 5]) for i in range(0, len(ws), 5)]

    train = [('min_num_of_noun_features', 1, 2, 3), ('max_frequency_when_noun_is_eojeol', 30, 2), ('min_noun_score', .3, .7), ('min_noun_frequency', 1, 3), ('min_eojeol_frequency', 1, 2),
             ('min_predicator_frequency', 1, 2), ('min_num_of_eomi_features', 5, 1), ('min_eomi_score', .3), ('min_eomi_frequency', 1), ('debug', False)]
    for cls in (NewsPOSExtractor, ChatPOSExtractor):
        @part(cls.__name__ + '.train_extract', train, pcorpus, .8)
        def _(d, a, k, cls=cls):
            return cls(verbose=False).train_extract(list(d), *a, **k)

        @part(cls.__name__ + '.train', train, pcorpus, .8)
        def _(d, a, k, cls=cls):
            x = cls(verbose=False)
            x.train(list(d), *a, **k)
            return x.extract()

        @part(cls.__name__, [('verbose', True), ('ensure_normalized', True, False), ('extract_eomi', True, False)], lambda rng: pcorpus(rng) + ['한국(서울)의 정부!는 나라,'], .35)
        def _(d, a, k, cls=cls):
            return cls(*a, **k).train_extract(list(d))

    # ------------------------------------------------------------------ tagger
    def tagged(rng):
        ns, js = rng.sample(text.NOUNS, 6), rng.sample(text.JOSA, 6)
        words = {'Noun': ns + ['하늘', '하늘라'], 'Josa': js + ['라도', '도'], 'Verb': ['가는', '먹'], 'Adjective': ['큰'], 'Adverb': ['매우', '잘'], 'Eomi': ['다']}
        return words, ' '.join(rng.choice(ns + ['빅', '나라', '매우잘']) + rng.choice(js + ['', 'x']) for _ in range(4)) + ' 하늘라도 매우 가는 큰 먹 ' + rng.choice(ns) + rng.choice(('가는', '큰', '먹'))

    def tagger(words, pre=None, post=None):
        D = Dictionary({t: set(w) for t, w in words.items()})
        return D, (LRTemplateMatcher(D), LREvaluator())

    @part('SimpleTagger.tag', [('flatten', True, False), ('debug', False)], tagged)
    def _(d, a, k):
        D, (g, e) = tagger(d[0])
        return SimpleTagger(g, e, UnknowLRPostprocessor()).tag(d[1], *a, **k)

    @part('SimpleTagger', [('postprocessor', None, UnknowLRPostprocessor())], tagged)
    def _(d, a, k):
        D, (g, e) = tagger(d[0])
        return SimpleTagger(g, e, *a, **k).tag(d[1])

    @part('LREvaluator', [('weights', None), ('preference', None, {'Noun': {'하늘': 50.}})], tagged)
    def _(d, a, k):
        D, (g, e) = tagger(d[0])
        return SimpleTagger(g, LREvaluator(*a, **k), UnknowLRPostprocessor()).tag(d[1])

    @part('LRTemplateMatcher', [('ltags', None, ('Noun',)), ('templates', None, {'Noun': [('Noun', 'Josa')]})], tagged)
    def _(d, a, k):
        D, (g, e) = tagger(d[0])
        return SimpleTagger(LRTemplateMatcher(D, *a, **k), e, UnknowLRPostprocessor()).tag(d[1])

    @part('EojeolTemplateMatcher', [('single_tags', None, ('Noun',)), ('lr_templates', None, (('Noun', 'Josa'),))], tagged)
    def _(d, a, k):
        D, _e = tagger(d[0])
        return SimpleTagger(EojeolTemplateMatcher(D, *a, **k), SimpleEojeolEvaluator()).tag(d[1])

    @part('SimpleEojeolEvaluator', [('weights', None, (('num_nouns', 1.), ('is_noun_josa', -3.)))], tagged)
    def _(d, a, k):
        D, _e = tagger(d[0])
        return SimpleTagger(EojeolTemplateMatcher(D), SimpleEojeolEvaluator(*a, **k)).tag(d[1])

    @part('Dictionary.add_words', [('force', False, True)], tagged)
    def _(d, a, k):
        D, _e = tagger(d[0])
        try:
            D.add_words('New', {'가나'}, *a, **k)
        except Exception as x:
            return type(x).__name__, D.pos_dict
        return D.pos_dict

    @part('Dictionary.remove_words', [('words', None, {'하늘'})], tagged)
    def _(d, a, k):
        D, _e = tagger(d[0])
        D.remove_words('Noun', *a, **k)
        return D.pos_dict

    # ------------------------------------------------------------------ the monitor
    @contextlib.contextmanager
    def scratch():
        p = tempfile.mkdtemp(prefix='c40_') + '/'
        try:
            yield p
        finally:
            shutil.rmtree(p)

    def result(f, d, a=(), k={}):
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                return canon(f(d, a, k))
            except Exception as x:
                return {'raises': '%s: %s' % (type(x).__name__, str(x)[:80])}

    def body(c, name):
        params, data, f, _ = PARTS[name]
        rng = c.rng
        d = data(rng)
        default = {p[0]: p[1] for p in params}
        names = list(default)
        c.note(component=name, data=d)
        want = result(f, d)
        if isinstance(want, dict) and 'raises' in want:
            m.fail('raises', component=name, error=want)
            return
        some = rng.sample(names, rng.randrange(1, len(names) + 1))
        for k in ({n: default[n] for n in names}, {n: default[n] for n in some}):
            m.expect(differ(want, result(f, d, (), k)) is None, 'given-and-left-out', component=name, given=sorted(k))
        n = rng.randrange(1, len(names) + 1)
        m.expect(differ(want, result(f, d, [default[x] for x in names[:n]], {})) is None, 'by-position', component=name, given=names[:n])
        step = 1 if len(params) < 4 else 2 if len(params) < 9 else 4
        for i, p in enumerate(params):
            for v in p[2:]:
                if (c.index + i) % step == 0:
                    got = result(f, d, (), {p[0]: v})
                    if differ(want, got):
                        m.seen('matters:%s.%s' % (name, p[0]))
                        m.seen('other value: %s.%s = %s' % (name, p[0], v if isinstance(v, (int, float, str)) else '...'))
                        m.nontrivial(name, p[0], str(v), c.index)
                    # by position and by keyword
                    if p[0] in some[:1]:
                        m.expect(differ(got, result(f, d, [default[x] for x in names[:i]] + [v])) is None, 'value-by-position', component=name, argument=p[0], value=str(v))
    rare = {'max_frequency_when_noun_is_eojeol', 'min_pos_feature_frequency', 'ensurable_score_lr_diff', 'max_lscore_diffratio', 'ignore_features', 'min_entropy_of_lastchar', 'min_noun_entropy', 'min_pos_score', 'min_eomi_score',
            'min_eomi_frequency', 'min_num_of_unique_R_char', 'min_entropy_of_R_char', 'min_stem_score', 'LRNounExtractor.predict.min_noun_score'}
    for name in PARTS:
        m.require(*['matters:%s.%s' % (name, p[0]) for p in PARTS[name][0] if len(p) > 2 and not rare & {p[0], name + '.' + p[0]} and 'POS' not in name])
    for name, (_, _, _, w) in PARTS.items():
        def go(c, name=name):
            body(c, name)
        learned = name.startswith(('LRNoun', 'News', 'Eomi', 'Stem', 'Predic', 'Chat'))
        m.each(name, int((m.n(14, 200) if learned else m.n(70, 2000)) * w), go)
