# -*- coding: utf-8 -*-
"""C19: noun extraction repeatable, order-free, independent of the supply form, sources untouched."""
import itertools
from mon import text
from mon.canon import spoil
from checks.nounlib import disguise, real_corpus, tiny_corpus

RULE = '''random corpora (Korean text, ending alphabets, hostile text) x length limits x extraction options; per corpus: repeated extraction (with
other minima and a non-resetting extraction plus reset in between), shuffled and re-iterable supply, word counter, word graph from the counter and from
the sentences, retraining one extractor on another corpus and back, counter/graph snapshots around each call. Non-trivial: at least
two nouns; keyed by (corpus, configuration).'''


class Again:
    def __init__(self, xs):
        self.xs = xs

    def __iter__(self):
        return iter(list(self.xs))

    def __len__(self):
        return len(self.xs)


def graph(g):
    return {(l, r): k for l, rd in g._lr.items() for r, k in rd.items()} if hasattr(g, '_lr') else dict(g.to_EojeolCounter().items())


def run(m):
    from soynlp.noun import LRNounExtractor_v2
    from soynlp.utils import EojeolCounter, LRGraph
    m.require('nouns', 'compound', 'repeat', 'shuffled', 'counter', 'graph', 'sent_graph', 'retrained', 'no_reset', 'other_minima', 'long_word', 'longest_word', 'nothing_found')

    def plain(x):
        return {w: (s.frequency, s.score) for w, s in x.items()}

    def body(c):
        rng = c.rng

        def corpus():
            n = rng.choice((2, 8, 25, 70))
            k = rng.random()
            if k < .6:
                return real_corpus(rng, n)
            if k < .85:
                return tiny_corpus(rng, n)
            return [text.hostile(rng) + ' ' + text.sentence(rng) for _ in range(min(n, 15))]
        sents = corpus()
        L, R = rng.choice((10, 10, 4, 12)), rng.choice((9, 9, 3, 12))
        if rng.random() < .35:
            sents, _ = disguise(rng, sents, longer=.7)
            m.seen('long_word', any(14 < len(w) <= L + R for s in sents for w in s.split()))
            m.seen('longest_word', any(len(w) == L + R for s in sents for w in s.split()))
        kw = dict(verbose=False, max_left_length=L, max_right_length=R)
        if (L, R) == (10, 9) and rng.random() < .5:
            kw = dict(verbose=False)
        if rng.random() < .3:
            kw['extract_compound'] = False
        if rng.random() < .2:
            kw['min_num_of_features'] = rng.choice((0, 2))
        ex = {}
        if rng.random() < .3:
            ex['min_noun_frequency'] = rng.choice((1, 2, 4))
        if rng.random() < .3:
            ex['min_noun_score'] = rng.choice((.1, .5, .9))
        mef = rng.choice((1, 1, 1, 2))
        c.note(sentences=sents, config=kw, extract=ex, min_eojeol_frequency=mef)
        frozen = list(sents)
        e = LRNounExtractor_v2(**kw)
        base = plain(e.train_extract(sents, min_eojeol_frequency=mef, **ex))
        m.seen('nouns', len(base))
        m.eq(sents, frozen, 'sentences-modified')
        e0 = LRNounExtractor_v2(**kw)
        e0.train(sents, mef)
        g0 = graph(e0.lrgraph)
        m.eq(graph(e.lrgraph), g0, 'trained-graph-changed')

        # repetition
        m.eq(plain(e.extract(**ex)), base, 'repeat')
        if rng.random() < .3:
            spoil(e.extract(**ex))
            m.eq(plain(e.extract(**ex)), base, 'repeat-after-the-result-was-changed')
            m.seen('result_changed')
        if rng.random() < .5:
            e.extract(min_noun_score=.05, min_noun_frequency=1)
            e.extract(min_noun_score=.95, min_noun_frequency=7)
            if rng.random() < .5:
                e.extract(min_noun_frequency=10 ** 6)
                m.seen('nothing_found')
            m.eq(plain(e.extract(**ex)), base, 'repeat-after-other-minima')
            m.seen('other_minima')
        if rng.random() < .5:
            m.eq(plain(e.extract(reset_lrgraph=False, **ex)), base, 'no-reset-result')
            e.lrgraph.reset_lrgraph()
            m.eq(graph(e.lrgraph), g0, 'graph-after-reset')
            m.eq(plain(e.extract(**ex)), base, 'repeat-after-reset')
            m.seen('no_reset')
        m.eq(graph(e.lrgraph), g0, 'trained-graph-changed')
        m.seen('repeat')
        if kw.get('extract_compound', True):
            m.seen('compound', any(len(e.decompose_compound(w)) > 1 for w in base))
        # order of the sentences, and of the words inside them
        sh = list(sents)
        rng.shuffle(sh)
        if rng.random() < .5:
            sh = [' '.join(rng.sample(s.split(), len(s.split()))) for s in sh]
        m.eq(plain(LRNounExtractor_v2(**kw).train_extract(Again(sh), min_eojeol_frequency=mef, **ex)), base, 'order', shuffled=sh)
        m.seen('shuffled')
        # retraining replaces what was learned
        if rng.random() < .4:
            e.train(corpus())
            e.extract()
            e.train(sents, mef)
            m.eq(plain(e.extract(**ex)), base, 'retrained')
            m.seen('retrained')
        # counter
        ec = EojeolCounter(sents, min_count=mef, max_length=L + R, verbose=False)
        snap = dict(ec.items())
        e2 = LRNounExtractor_v2(**kw)
        got = plain(e2.train_extract(ec, **ex)) if rng.random() < .5 else (e2.train(ec), plain(e2.extract(**ex)))[1]
        m.eq(got, base, 'counter-supply')
        m.eq(plain(e2.extract(**ex)), base, 'counter-repeat')
        m.eq(dict(ec.items()), snap, 'counter-modified')
        m.eq(ec.coverage, 0, 'counter-modified-coverage')
        m.seen('counter')
        # graph made from the counter
        lr = ec.to_lrgraph(L, R)
        g1 = graph(lr)
        e3 = LRNounExtractor_v2(**kw)
        m.eq(plain(e3.train_extract(lr, **ex)), base, 'graph-supply')
        m.eq(plain(e3.extract(**ex)), base, 'graph-repeat')
        m.eq(graph(lr), g1, 'graph-modified')
        m.eq(dict(ec.items()), snap, 'counter-modified-through-graph')
        m.seen('graph')
        if mef == 1:
            g = LRGraph(sents=sents, l_max_length=L, r_max_length=R)
            g2 = graph(g)
            m.eq(plain(LRNounExtractor_v2(**kw).train_extract(g, **ex)), base, 'sentence-graph-supply')
            m.eq(graph(g), g2, 'sentence-graph-modified')
            m.seen('sent_graph')
        if len(base) > 1:
            m.nontrivial(sents, sorted(kw.items()), sorted(ex.items()), mef)
    m.each('corpora', m.n(110, 2500), body)
