# -*- coding: utf-8 -*-
"""C38: queries do not disturb each other, independent objects do not affect each other - under any interleaving."""
import os
import shutil
import tempfile
from mon import text
from mon.canon import canon, configured, counts, differ, empty, inner, lview, rview, spoil
from mon.core import REPO
from mon.schedule import Interleaver, nested
from checks.nounlib import tiny_corpus, real_corpus

RULE = '''Groups of operations: queries of one shared object (tokenizers, normalizers, distances and encoder, taggers, dictionary, lemmatizer, word
scores, vectorizer, counters and graphs, corpus files, trained noun extractors) and trainings of independent objects, drawn so that
several concern the same object. Each is first run alone; then the group is run in 2-4 threads under a controlled scheduler that hands over
at random lines (or byte-code instructions) of soynlp, and each is run with others nested at random lines of it; then alone again. Oracle: every result
equals the one obtained alone. Non-trivial: at least one hand-over or nesting inside soynlp; keyed by the pairs of code points interleaved.'''

ASSUMPTIONS = ['one thread runs at a time and hands over between lines or instructions of soynlp, as CPython threads with the interpreter lock do',
               'training, editing or loading one object while querying that same object is outside the property']


def run(m):
    import soynlp.hangle as H
    import soynlp.normalizer as N
    from soynlp.tokenizer import LTokenizer, MaxScoreTokenizer, MaxLRScoreTokenizer, NounMatchTokenizer, RegexTokenizer
    from soynlp.tokenizer._noun_tokenizer import NounLMatchTokenizer
    from soynlp.tokenizer._tokenizer_builder import EojeolPatternTrainer
    from soynlp.utils import DoublespaceLineCorpus, EojeolCounter, LRGraph, most_similar
    from soynlp.word import WordExtractor, pmi
    from soynlp.word._phrase import Bigram
    from soynlp.noun import LRNounExtractor, LRNounExtractor_v2, NewsNounExtractor
    from soynlp.vectorizer import BaseVectorizer, sent_to_word_contexts_matrix
    from soynlp.postagger import (SimpleTagger, LRTemplateMatcher, EojeolTemplateMatcher, LREvaluator, SimpleEojeolEvaluator,
                                  UnknowLRPostprocessor, Dictionary)
    from soynlp.predicator import PredicatorExtractor
    from soynlp.lemmatizer import Lemmatizer, conjugate, conjugate_chat, lemma_candidate, lemma_candidate_chat
    AB = '가나다라'
    ROOT = os.path.join(os.path.realpath(REPO), 'soynlp') + os.sep
    scratch = tempfile.mkdtemp(prefix='verif_c38_')

    def words(rng, k, mx=4, ab=AB):
        return [text.small_words(rng, ab, mx) for _ in range(k)]

    def scores(rng, k=8):
        return {w: rng.choice((.1, .5, .5, .9)) for w in words(rng, k)}

    def sent(rng):
        return ' '.join(words(rng, 4, 9))

    # every maker returns query makers: rng -> thunk; the object is shared by all thunks made from one maker call
    def tokenizers(rng):
        sc = scores(rng)
        t = rng.choice((LTokenizer(sc), MaxScoreTokenizer(sc), MaxLRScoreTokenizer(set(words(rng, 8)), set(words(rng, 5, 3))),
                        MaxLRScoreTokenizer(scores(rng), scores(rng)), NounMatchTokenizer(sc), NounLMatchTokenizer(sc), RegexTokenizer()))

        def q(rng):
            s = sent(rng) if not isinstance(t, RegexTokenizer) else text.hostile(rng, 20)
            if isinstance(t, NounMatchTokenizer):
                kw = {'flatten': rng.random() < .5, 'compose_compound': rng.random() < .5}
            elif isinstance(t, NounLMatchTokenizer):
                kw = {}
            else:
                kw = {'flatten': rng.random() < .5}
                if isinstance(t, LTokenizer):
                    kw['tolerance'] = rng.choice((0, .4))
            return lambda: t.tokenize(s, **kw)
        return [q]

    def characters(rng):
        e = H.ConvolutionHangleEncoder()

        def q(rng):
            s, t = text.hostile(rng, 12), text.hostile(rng, 12)
            k = rng.randrange(9)
            clean = N.only_hangle_number(s)
            if rng.random() < .5:
                clean = (clean.replace(' ', '') + '가나다라')[:4]
            return (lambda: H.normalize(s, english=True, number=True, punctuation=True), lambda: N.emoticon_normalize(s, 2),
                    lambda: N.repeat_normalize(s, 2), lambda: [H.decompose(x) for x in s], lambda: H.levenshtein(s, t),
                    lambda: H.jamo_levenshtein(s, t), lambda: e.encode(clean), lambda: e.onehot_to_sent(e.sent_to_onehot(clean)),
                    lambda: [N.only_hangle(s), N.only_text(s), N.remove_doublespace(s)])[k]
        return [q]

    def tagger(rng):
        d = Dictionary({t: set(words(rng, rng.choice((4, 9)), 3, '가나')) for t in ('Noun', 'Verb', 'Adjective', 'Adverb', 'Exclamation', 'Josa')})
        t = rng.choice((SimpleTagger(LRTemplateMatcher(d), LREvaluator(), UnknowLRPostprocessor()), SimpleTagger(LRTemplateMatcher(d), LREvaluator()),
                        SimpleTagger(EojeolTemplateMatcher(d), SimpleEojeolEvaluator())))

        def q(rng):
            s = ' '.join(words(rng, 3, 7, '가나'))
            return lambda: t.tag(s)

        def look(rng):
            ws = words(rng, 5, 3, '가나')
            return lambda: [[d.get_pos(w), d.word_is_tag(w, 'Noun')] for w in ws]
        return [q, look]

    def lemmatizer(rng):
        lem = Lemmatizer(set(text.VERBS), set(text.ENDS) | {'어', '으니'})

        def q(rng):
            w, e = rng.choice(text.VERBS), rng.choice(text.ENDS)
            f = rng.choice(sorted(conjugate(w, e)) or ['가'])
            return rng.choice((lambda: lem.lemmatize(f), lambda: lem.candidates(f), lambda: conjugate(w, e), lambda: conjugate_chat(w, e),
                               lambda: [lemma_candidate(f[:i], f[i:]) for i in range(1, len(f))],
                               lambda: [lemma_candidate_chat(f[:i], f[i:]) for i in range(1, len(f))]))
        return [q]

    def wordscores(rng):
        w = WordExtractor(min_frequency=1, verbose_points=0, min_cohesion_forward=0, remove_subwords=rng.random() < .5)
        w.train(text.small_corpus(rng, 12, AB))
        return [lambda rng: rng.choice((w.extract, w.word_scores, w.words, w.all_cohesion_scores, w.all_branching_entropy, w.all_accessor_variety)),
                lambda rng: (lambda x: lambda: [w.cohesion_score(x), w.branching_entropy(x), w.accessor_variety(x), w.frequency(x)])(
                    text.small_words(rng, AB, 3))]

    def vectorizer(rng):
        docs = text.small_corpus(rng, 12, AB, 2, minw=1)
        v = BaseVectorizer(verbose=False)
        v.fit(docs)

        def q(rng):
            s = text.small_corpus(rng, 4, AB, 2, minw=1)

            def to_file():
                fd, f = tempfile.mkstemp(dir=scratch)
                os.close(fd)
                v.to_file(s, f)
                with open(f, encoding='utf-8') as g:
                    return g.read()
            return rng.choice((lambda: v.transform(s), lambda: [v.decode_from_list(v.encode_a_doc_to_list(x)) for x in s],
                               lambda: [v.decode_from_bow(v.encode_a_doc_to_bow(x)) for x in s], to_file))
        return [q]

    def graph(rng):
        s = text.small_corpus(rng, 8, AB)
        g, e = LRGraph(sents=s), EojeolCounter(s)

        def q(rng):
            w = text.small_words(rng, AB, 2)
            return rng.choice((lambda: [g.get_l(w, 3), g.get_r(w, 3)], g.to_EojeolCounter, lambda: e.to_lrgraph(2, 2), lambda: [e[w], len(e)],
                               lambda: e.get_uncovered_eojeols(2), lambda: dict(e.items()), g.copy_compatified_lrgraph_origin))
        return [q]

    def corpusfile(rng):
        f = os.path.join(scratch, 'c%d' % rng.randrange(10 ** 9))
        with open(f, 'w', encoding='utf-8') as g:
            for _ in range(6):
                g.write('  '.join(text.eojeol(rng) + ' ' + text.eojeol(rng) for _ in range(rng.randrange(1, 4))) + '\n')
        c = DoublespaceLineCorpus(f, iter_sent=rng.random() < .5)
        return [lambda rng: rng.choice((lambda: list(c), lambda: len(c), lambda: list(zip(c, c)), lambda: [counts(EojeolCounter(c))]))]

    def extractor(rng):
        e = LRNounExtractor_v2(verbose=False, min_num_of_features=1)
        n = sorted(e.train_extract(rng.choice((tiny_corpus, real_corpus))(rng, 30)))
        cand = sorted(lview(e.lrgraph))

        def q(rng):
            ws = [rng.choice(cand) for _ in range(4)] if cand else ['가']
            cs = [''.join(rng.choice(n or ['가']) for _ in range(2)) for _ in range(2)]
            return rng.choice((lambda: [e.predict(w) for w in ws], lambda: [e.decompose_compound(w) for w in cs]))
        return [q]

    def similar(rng):
        import numpy as np
        x = np.array([[rng.random() for _ in range(3)] for _ in range(6)])
        names = list('abcdef')
        idx = {w: i for i, w in enumerate(names)}
        return [lambda rng: (lambda w: lambda: most_similar(w, x, idx, names, 3))(rng.choice(names))]

    def trainings(rng):
        """independent objects, some fed with one shared list of sentences"""
        small, shared = text.small_corpus(rng, 10, AB, 2, minw=1), rng.choice((tiny_corpus, real_corpus))(rng, 25)

        def fit():
            v = BaseVectorizer(verbose=False)
            return v.fit_transform(small), v.vocabulary_

        def scored():
            w = WordExtractor(min_frequency=1, verbose_points=0)
            w.train(small)
            return w.L, w.R, w.word_scores()

        def pairs():
            b = Bigram(min_frequency=1, verbose=False, score='mikolov')
            b.train(small)
            return b.extract(topk=5, threshold=-9)

        def contexts():
            x, i = sent_to_word_contexts_matrix(small, windows=2, min_tf=1, verbose=False)
            return (x, i, pmi(x, min_pmi=0)) if x.nnz else (x, i)

        def patterns():
            t = EojeolPatternTrainer(max_left_length=3, max_right_length=2, min_frequency=1, verbose=False)
            t.train(small)
            return t.lrgraph, t.rlgraph

        def edits():
            g = LRGraph(sents=small)
            for s in small[:3]:
                for w in s.split():
                    g.remove_eojeol(w)
                    g.add_lr_pair(w[:1], w[1:], 3)
            a = canon(lview(g))
            g.reset_lrgraph()
            return a, lview(g), rview(g)

        def nouns():
            e = LRNounExtractor_v2(verbose=False, min_num_of_features=1)
            return e.train_extract(shared), lview(e.lrgraph), inner(e, '_compounds_components')

        def learning():
            e = LRNounExtractor_v2(verbose=False, min_num_of_features=1, extract_pos_feature=True)
            e.train(shared)
            return e.extract(), inner(e, '_pos_features')

        def nouns1():
            return LRNounExtractor(verbose=False).train_extract(shared, min_noun_frequency=2)

        def news():
            return NewsNounExtractor(verbose=False).train_extract(shared)

        def predicates():
            p = PredicatorExtractor(set(text.NOUNS[:5]), adjectives={'예쁘', '좋', '크'}, verbs={'가', '먹', '보', '하'},
                                    eomis={'다', '고', '는', '어서'}, verbose=False)
            return p.train_extract(shared, min_eojeol_frequency=1, min_predicator_frequency=1)
        cheap = [fit, scored, pairs, contexts, patterns, edits, lambda: counts(EojeolCounter(small, min_count=2))]
        dear = [nouns, learning, nouns1, news, predicates]
        return [lambda rng: rng.choice(cheap), lambda rng: rng.choice(cheap if rng.random() < .5 else dear)]

    def configurations(rng):
        return [lambda rng: configured(rng, words)]

    MAKERS = {f.__name__: f for f in (configurations, tokenizers, characters, tagger, lemmatizer, wordscores, vectorizer, graph, corpusfile, extractor, similar, trainings)}
    m.require('hand_over', 'nested', 'threads', 'instruction', 'kept', 'spoiled', *MAKERS)

    def call(op):
        try:
            return canon(op())
        except Exception as e:
            return canon(('raised', type(e).__name__))

    def fix(r):
        return list(r) if isinstance(r, tuple) else r

    def body(c):
        rng = c.rng
        names = [rng.choice(sorted(MAKERS))]
        if rng.random() < .5:
            names.append(rng.choice(sorted(MAKERS)))
        ops = []
        for n in names:
            qs = MAKERS[n](rng)
            for _ in range(rng.choice((2, 3, 4))):
                op = rng.choice(qs)(rng)
                ops.append((n, op))
        alone, raw = [], []
        for n, op in ops:
            try:
                r = op()
                raw.append(r if isinstance(r, (list, dict, set, tuple)) or hasattr(r, 'shape') else None)
                alone.append(canon(r))
            except Exception as e:
                raw.append(None)
                alone.append(canon(('raised', type(e).__name__)))
        heavy = 'trainings' in names or 'extractor' in names
        c.note(group=names, operations=len(ops))

        def same(i, got, how, **kw):
            d = differ(alone[i], got)
            m.expect(d is None, 'disturbed:' + ops[i][0], 'result differs from the one obtained alone', how=how, operation=i, where=d and d[0],
                     alone=d and d[1], got=d and d[2], **kw)
        for i, (n, op) in enumerate(ops):
            same(i, call(op), 'repeated alone')
            m.seen('returned' if not (isinstance(alone[i], list) and alone[i][:1] == ['raised']) else 'raised:%s:%s' % (n, alone[i][1]))
            if not empty(alone[i]):
                m.seen(n)
        # threads
        for _ in range(2 if heavy else 3):
            n = rng.choice((2, 2, 3, 4))
            opcodes = rng.random() < .25 and not heavy
            lim = 1500 if heavy else 4000
            il = Interleaver(rng, ROOT, rng.choice((.005, .05, .3)) if not heavy else rng.choice((.0005, .01, .1)), opcodes, lim)
            order = [[rng.randrange(len(ops)) for _ in range(rng.choice((1, 2, 3)))] for _ in range(n)]
            res = il.run([[(lambda op: lambda: canon(op()))(ops[i][1]) for i in seq] for seq in order])
            for seq, rs in zip(order, res):
                for i, r in zip(seq, rs):
                    same(i, fix(r), 'threads', order=order)
            m.seen('threads', n)
            m.seen('hand_over', il.switches)
            m.seen('instruction', opcodes and il.switches)
            m.seen('scheduler_gave_up', il.free)
            for p in il.pairs:
                m.nontrivial(p)
        # nesting
        for _ in range(2 if heavy else 4):
            i = rng.randrange(len(ops))
            fs = [(lambda op: lambda: canon(op()))(op) for n, op in ops]
            r, inner = nested(rng, ROOT, rng.choice((.003, .03, .3)), fs[i], fs, 6 if heavy else 30)
            same(i, fix(r), 'others nested inside', nested=[k for k, _, _ in inner][:10])
            for k, x, at in inner:
                same(k, fix(x), 'nested inside', outer=i, at=at)
                m.nontrivial('nested', at, ops[k][0])
            m.seen('nested', len(inner))
        for i, (n, op) in enumerate(ops):
            same(i, call(op), 'alone afterwards')
            if raw[i] is not None:
                # what was returned at first is still what it was
                same(i, canon(raw[i]), 'result kept since')
                m.seen('kept')
        if not any(r is not None for r in raw):
            return
        # what was returned belongs to the caller, who may change it
        for r in raw:
            spoil(r)
        for i, (n, op) in enumerate(ops):
            same(i, call(op), 'after the caller changed what was returned')
            m.seen('spoiled')
    try:
        m.each('group', m.n(150, 2500), body)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
