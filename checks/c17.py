# -*- coding: utf-8 -*-
"""C17: WordExtractor training histories."""
import os
import tempfile
from mon import text
from checks.c16 import Ref, corpus, config, FIELDS

RULE = '''random corpora; histories: shuffled training, split cumulative training (minimum frequency 1, or every sentence twice), training with a pruning interval, non-cumulative retraining,
save / load into a differently configured extractor, interleaved queries and extractions. Two extractors agree when every frequency,
score and extracted word agrees. Non-trivial: corpus with 2+ sentences and 5+ extracted words; keyed by (corpus, configuration).'''


def snapshot(we, universe):
    sc = we.word_scores()
    return ({w: tuple(we.frequency(w)) for w in universe},
            {w: tuple(round(float(getattr(s, f)), 10) for f in FIELDS) for w, s in sc.items()},
            {w: tuple(round(float(x), 10) for x in s) for w, s in we.extract().items()})


def run(m):
    from soynlp.word import WordExtractor
    m.require('shuffled', 'cumulative', 'cumulative_scores', 'non_cumulative', 'reloaded', 'queried')

    def body(c):
        rng = c.rng
        sents, kw = corpus(rng), config(rng)
        c.note(sentences=sents, config=kw)
        minf = kw.get('min_frequency', 5)
        ref = Ref(sents, kw.get('max_left_length', 10), kw.get('max_right_length', 6), 1)
        uni = set(ref.L) | set(ref.R) | {'없다'}

        def new(**over):
            return WordExtractor(verbose_points=rng.choice((0, 0, 0, 1, 5)), **{**kw, **over})
        a = new()
        a.train(sents)
        snap = snapshot(a, uni)
        # queries leave the state alone
        for w in list(uni)[:10] + ['', '없', 'ㅋ', '없는말']:
            a.frequency(w), a.cohesion_score(w), a.branching_entropy(w), a.accessor_variety(w)
        a.words(), a.all_cohesion_scores()
        m.seen('queried')
        m.eq(snapshot(a, uni), snap, 'queries-change-state')
        # order
        perm = list(sents)
        rng.shuffle(perm)
        b = new()
        b.train(perm)
        if perm != sents:
            m.seen('shuffled')
        m.eq(snapshot(b, uni), snap, 'order-dependent', permuted=perm)
        # repeated training, not cumulative, forgets
        b.train([text.sentence(rng) for _ in range(3)] + ['묵은 말 묵은 말'])
        b.train(sents, cumulate=False)
        m.seen('non_cumulative')
        m.eq(snapshot(b, uni | {'묵', '묵은'}), snapshot(a, uni | {'묵', '묵은'}), 'non-cumulative-remembers')
        # cumulative in parts = at once (no frequency cut)
        one = new(min_frequency=1)
        one.train(sents)
        f1 = {w: tuple(one.frequency(w)) for w in uni}
        m.eq(f1, {w: ref.freq(w) for w in uni}, 'frequencies')
        part = new(min_frequency=1)
        i = 0
        nparts = 0
        while i < len(sents):
            k = rng.randrange(1, 4)
            part.train(sents[i:i + k]) if rng.random() < .5 else part.train(sents[i:i + k], cumulate=True)
            i += k
            nparts += 1
            if rng.random() < .3:
                part.extract()
        if nparts > 1:
            m.seen('cumulative')
        m.eq({w: tuple(part.frequency(w)) for w in uni}, f1, 'cumulative-differs', parts=nparts)
        m.eq(set(part.words()), set(one.words()), 'cumulative-words')
        # with every sentence seen twice in each call nothing is ever below a minimum, so scores add up as well
        cut = rng.randrange(len(sents) + 1)
        halves = [h + h for h in (sents[:cut], sents[cut:]) if h]
        whole, step = new(min_frequency=2 if rng.random() < .5 else 1), None
        step = new(min_frequency=whole.min_frequency)
        whole.train([s for h in halves for s in h])
        for h in halves:
            step.train(h)
            if rng.random() < .3:
                step.word_scores()
        m.seen('cumulative_scores', len(halves) > 1)
        m.eq(snapshot(step, uni), snapshot(whole, uni), 'cumulative-scores', cut=cut)
        # a pruning interval has nothing to prune when the minimum is one
        pr = new(min_frequency=1)
        pr.train(sents, num_for_pruning=rng.choice((1, 1, 2, 3, 10)))
        m.eq(snapshot(pr, uni), snapshot(one, uni), 'pruning-without-minimum')
        # reload
        with tempfile.TemporaryDirectory(prefix='verif-c17-') as d:
            p = os.path.join(d, 'model.pkl')
            a.save(p)
            m.eq(snapshot(a, uni), snap, 'save-changes-state')
            r = WordExtractor(verbose_points=0, max_left_length=rng.randrange(1, 8), max_right_length=rng.randrange(1, 8),
                              min_frequency=rng.randrange(1, 9), min_cohesion_forward=.9, min_right_branching_entropy=3.0,
                              min_left_accessor_variety=7, remove_subwords=not kw.get('remove_subwords', False),
                              max_droprate_leftside_frequency=.1, min_cohesion_backward=.7,
                              min_left_branching_entropy=2., min_right_accessor_variety=5)
            if rng.random() < .5:
                r.train(['다른 말뭉치 다른 말뭉치'] * 3)
            r.load(p)
            m.seen('reloaded')
            m.eq(snapshot(r, uni), snap, 'reload-differs')
            for w in sorted(uni)[:15]:
                m.eq((tuple(map(float, r.cohesion_score(w))), tuple(r.branching_entropy(w)), tuple(r.accessor_variety(w))),
                     (tuple(map(float, a.cohesion_score(w))), tuple(a.branching_entropy(w)), tuple(a.accessor_variety(w))), 'reload-query', word=w)
            # continuing training after reload equals continuing the original
            more = [text.sentence(rng) for _ in range(4)] + sents[:2]
            a.train(more)
            r.train(more)
            uni2 = uni | set(more[0].split())
            m.eq(snapshot(r, uni2), snapshot(a, uni2), 'reload-then-train')
        if len(sents) > 1 and len(snap[2]) >= 5:
            m.nontrivial(sents, sorted(kw.items()))
    m.each('histories', m.n(300, 5000), body)
