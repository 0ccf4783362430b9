# -*- coding: utf-8 -*-
"""C16: WordExtractor statistics against their definitions."""
import math
from collections import Counter, defaultdict
from mon import text
from mon.canon import spoil

RULE = '''random corpora (tiny alphabets for dense statistics, realistic sentences, one-word sentences, single characters; a few of real size: long
words, sentences of over 1000 words, thousands of words, counts in the thousands) x length
limits, minimum frequency, thresholds, subword removal. Oracle: every statistic recomputed from the raw sentences; batch tables
compared with single-word queries. Non-trivial: a word with both entropies positive; keyed by (corpus, configuration).'''


class Ref:
    """the definitions, straight from the sentences"""

    def __init__(self, sents, maxl, maxr, minf):
        self.maxl, self.maxr = maxl, maxr
        L, R, nxt, prv = Counter(), Counter(), Counter(), Counter()
        for s in sents:
            ws = s.split()
            for w in ws:
                if len(w) > 1:
                    for i in range(1, len(w) + 1):
                        if i <= maxl + 1:
                            L[w[:i]] += 1
                        if i <= maxr and i < len(w):
                            R[w[-i:]] += 1
            if len(ws) > 1:
                for i, w in enumerate(ws):
                    n, p = ws[(i + 1) % len(ws)][0], ws[i - 1][-1]
                    for j in range(len(w)):
                        if j == 0 or len(w) - j <= maxr:
                            nxt[w[j:], n] += 1
                        k = len(w) - j
                        if j == 0 or k <= maxl:
                            prv[p, w[:k]] += 1
        self.L = {w: f for w, f in L.items() if f >= minf}
        self.R = {w: f for w, f in R.items() if f >= minf}
        self.left, self.right = defaultdict(list), defaultdict(list)
        self.across_left, self.across_right = defaultdict(list), defaultdict(list)
        for w, f in self.R.items():
            self.left[w[1:]].append(f)
        for w, f in self.L.items():
            self.right[w[:-1]].append(f)
        for (p, w), f in prv.items():
            self.across_left[w].append(f)
            if f > 1:
                self.left[w].append(f)
        for (w, n), f in nxt.items():
            self.across_right[w].append(f)
            if f > 1:
                self.right[w].append(f)

    def words(self):
        return {w for w in self.L if len(w) <= self.maxl} | {w for w in self.R if len(w) <= self.maxr}

    @staticmethod
    def entropy(fs):
        t = sum(fs)
        return -sum(f / t * math.log(f / t) for f in fs) if t else 0.0

    def be(self, w):
        return self.entropy(self.left.get(w, [])), self.entropy(self.right.get(w, []))

    def av(self, w):
        return len(self.left.get(w, [])), len(self.right.get(w, []))

    def freq(self, w):
        return self.L.get(w, 0), self.R.get(w, 0)

    def coh(self, w):
        if len(w) <= 1:
            return 0, 0
        l, r = self.freq(w)
        e = 1 / (len(w) - 1)
        return (l / self.L[w[0]]) ** e if l else 0, (r / self.R[w[-1]]) ** e if r else 0


def corpus(rng):
    x = rng.random()
    n = rng.choice((1, 3, 8, 20, 40))
    if x < .6:
        return text.small_corpus(rng, n, rng.choice(('가나', '가나다', '가나다라마')), rng.choice((3, 5, 8)), minw=1)
    if x < .9:
        return [text.sentence(rng) for _ in range(n * 2)]
    return [text.hostile(rng) for _ in range(n)]


class Again:
    def __init__(self, xs):
        self.xs = xs

    def __iter__(self):
        return iter(self.xs)

    def __len__(self):
        return len(self.xs)


def config(rng):
    kw = {}
    if rng.random() < .8:
        kw.update(max_left_length=rng.choice((1, 2, 3, 4, 6, 10)), max_right_length=rng.choice((1, 2, 3, 4, 6)))
    kw['min_frequency'] = rng.choice((1, 1, 2, 3, 5))
    if rng.random() < .2:
        del kw['min_frequency']
    if rng.random() < .6:
        kw['min_cohesion_forward'] = rng.choice((0, .05, .3, .6, 1.0))
        kw['min_cohesion_backward'] = rng.choice((0, 0, .2))
        kw['min_left_branching_entropy'] = rng.choice((0, 0, .5))
        kw['min_right_branching_entropy'] = rng.choice((0, .3, .6931471805599453))
        kw['min_left_accessor_variety'] = rng.choice((0, 0, 2))
        kw['min_right_accessor_variety'] = rng.choice((0, 1, 3))
        kw['remove_subwords'] = rng.random() < .5
        kw['max_droprate_leftside_frequency'] = rng.choice((.98, .5, .8, 1.0))
    return kw


FIELDS = ('cohesion_forward', 'cohesion_backward', 'left_branching_entropy', 'right_branching_entropy',
          'left_accessor_variety', 'right_accessor_variety', 'leftside_frequency', 'rightside_frequency')


def run(m):
    from soynlp.word import WordExtractor
    m.require('both_entropies', 'threshold_cut', 'max_length_word', 'subword_removed', 'cohesion', 'across_words', 'default_limits', 'other_thresholds', 'pruned',
              'large_long', 'large_frequent', 'large_vocabulary', 'large_sentence')

    def near(a, b):
        return all(abs(x - y) <= 1e-9 for x, y in zip(a, b)) and len(a) == len(b)

    def select(ref, words, kw, minf):
        """the words passing every threshold, or None when a float score lies within rounding distance of its threshold"""
        g = lambda k, d: kw.get(k, d)
        out = set()
        for w in sorted(words, key=len):
            rc, rb, ra, rf = ref.coh(w), ref.be(w), ref.av(w), ref.freq(w)
            tests = [(rb[0], g('min_left_branching_entropy', 0)), (rb[1], g('min_right_branching_entropy', 0)),
                     (ra[0], g('min_left_accessor_variety', 0)), (ra[1], g('min_right_accessor_variety', 0)), (max(rf), minf)]
            if len(w) > 1:
                tests += [(rc[0], g('min_cohesion_forward', .05)), (rc[1], g('min_cohesion_backward', 0))]
            if any(abs(x - t) < 1e-9 and x != t for x, t in tests):
                return None
            if any(x < t for x, t in tests):
                m.seen('threshold_cut')
                continue
            out.add(w)
            if g('remove_subwords', False) and len(w) > 1:
                s = w[:-1]
                rate = rf[0] / ref.L[s] if s in ref.L else 0
                if rate > g('max_droprate_leftside_frequency', .98) and s in out:
                    out.discard(s)
                    m.seen('subword_removed')
        return out

    def judge(rng, c, sents, kw, limit):
        c.note(sentences=sents, config=kw)
        frozen = list(sents)
        if rng.random() < .15:
            sents = Again(sents)
            m.seen('reiterable')
        maxl, maxr, minf = kw.get('max_left_length', 10), kw.get('max_right_length', 6), kw.get('min_frequency', 5)
        m.seen('default_limits', 'max_left_length' not in kw)
        ref = Ref(sents, maxl, maxr, minf)
        if rng.random() < .5:
            we = WordExtractor(sents, verbose_points=rng.choice((0, 3)), **kw)
        else:
            we = WordExtractor(verbose_points=rng.choice((0, 0, 1, 2)), **kw)
            we.train(sents)
        m.eq(list(sents), frozen, 'sentences-modified')
        words = ref.words()
        m.eq(set(we.words()), words, 'words')
        every = set(ref.L) | set(ref.R) | words | {'없는말', '가', ''}
        for w in every:
            m.eq(tuple(we.frequency(w)), ref.freq(w), 'frequency', word=w)
        probe = sorted(words)
        if len(probe) > limit:
            probe = rng.sample(probe, limit)
        cps, bes, avs, scs = we.all_cohesion_scores(), we.all_branching_entropy(), we.all_accessor_variety(), we.word_scores()
        m.eq(set(scs), words, 'scored-words')
        for w in probe + ['없는말', '없']:
            coh = tuple(map(float, we.cohesion_score(w)))
            m.expect(near(coh, ref.coh(w)) and all(0 <= x <= 1 + 1e-12 for x in coh), 'cohesion', word=w, got=coh, want=ref.coh(w))
            be, av = we.branching_entropy(w), we.accessor_variety(w)
            m.expect(near(be, ref.be(w)), 'branching-entropy', word=w, got=be, want=ref.be(w))
            m.expect(near(av, ref.av(w)), 'accessor-variety', word=w, got=av, want=ref.av(w))
            if min(ref.be(w)) > 0:
                m.seen('both_entropies')
                m.nontrivial(frozen, sorted(kw.items()))
            m.seen('cohesion', coh[0] > 0)
        for w in words:
            rc, rb, ra, rf = ref.coh(w), ref.be(w), ref.av(w), ref.freq(w)
            if len(w) == maxl and rb[1] > 0:
                m.seen('max_length_word')
            m.expect(near(tuple(cps.get(w, (0, 0))), rc), 'batch-cohesion', word=w, got=cps.get(w), want=rc)
            m.expect(near(tuple(bes.get(w, (0, 0))), rb), 'batch-branching-entropy', word=w, got=bes.get(w), want=rb)
            m.expect(near(tuple(avs.get(w, (0, 0))), ra), 'batch-accessor-variety', word=w, got=avs.get(w), want=ra)
            if w in scs:
                got = tuple(float(getattr(scs[w], f)) for f in FIELDS)
                m.expect(near(got, rc + rb + ra + rf), 'word-scores', word=w, got=got, want=rc + rb + ra + rf)
            m.seen('across_words', sum(ra))
        # extraction: exactly the words passing every threshold
        spoil([we.extract(), we.word_scores(), we.words()])
        got = we.extract()
        out = select(ref, words, kw, minf)
        if out is not None:
            m.eq(set(got), out, 'extracted-words')
            m.eq(set(we.extract(scs)), out, 'extract-given-scores')
        for w, s in got.items():
            if w in words:
                m.expect(near(tuple(map(float, s)), ref.coh(w) + ref.be(w) + ref.av(w) + ref.freq(w)), 'extracted-scores', word=w)
        # some of the scores only
        part = rng.sample(sorted(words), min(len(words), rng.choice((1, 1, 2, 5, 30))))
        out = select(ref, part, kw, minf)
        if part and out is not None:
            m.eq(set(we.extract({w: scs[w] for w in part if w in scs})), out, 'extract-given-part', part=part)
        # other thresholds on the same model
        kw2 = {k: v for k, v in config(rng).items() if 'length' not in k and k != 'min_frequency'}
        minf2 = rng.choice((minf, minf, minf + 1, minf + 3, 2 * minf, 1))
        for k, v in kw2.items():
            setattr(we, k, v)
        we.min_frequency = minf2
        out = select(ref, words, {**kw, **kw2}, minf2)
        if out is not None:
            m.eq(set(we.extract()), out, 'extract-other-thresholds', thresholds=kw2, min_frequency=minf2)
            m.seen('other_thresholds', len(kw2))

    def body(c):
        rng = c.rng
        judge(rng, c, corpus(rng), config(rng), 40)
    m.each('corpora', m.n(500, 8000), body)

    def large(c):
        # the sizes real corpora have: long words, long sentences, thousands of words, frequent edges
        rng = c.rng
        kind = rng.choice(('long', 'long', 'frequent', 'frequent', 'vocabulary', 'sentence'))
        if c.index < 6:
            kind = ('long', 'frequent', 'vocabulary', 'sentence', 'long', 'frequent')[c.index]
        kw = config(rng)
        if kind == 'long':
            kw.update(max_left_length=rng.choice((5, 15, 20, 40)), max_right_length=rng.choice((2, 8, 15, 30)), min_frequency=rng.choice((1, 2)))
            if c.index in (0, 4):
                kw = dict(max_left_length=40, max_right_length=2 if c.index else 30, min_frequency=1, remove_subwords=True)
            if c.index >= 6 and rng.random() < .6:
                kw.update(remove_subwords=True, min_cohesion_forward=0, min_left_accessor_variety=0, min_right_accessor_variety=0)
            sents = text.small_corpus(rng, 12, rng.choice(('가나', '가', '가나다라')), rng.choice((20, 45)), 4, 1)
            sents += [rng.choice(sents) for _ in range(10)]
            pool = ' '.join(sents).split()[:5]
            sents += [' '.join(rng.choice(pool) for _ in range(4)) for _ in range(15)]
        elif kind == 'frequent':
            kw['max_droprate_leftside_frequency'] = rng.choice((.98, .98, .97, .5))
            kw['remove_subwords'] = True
            a, b, r = rng.choice((100, 1000, 9000)), rng.choice((61, 62, 64, 65, 1000)), rng.randrange(3)
            if c.index == 5:
                kw, b, r = dict(remove_subwords=True), rng.choice((61, 62, 64, 65)), 0
            sents = [' '.join(rng.choice(('가지', '가지는', '하나', '아나')) for _ in range(9)) for _ in range(a // 4)]
            sents += ['드문 가나 드문'] * 5 + ['드물게는 말 다시'] * b + ['드물게 말 나나'] + ['다시 드물게', '말 드물게는 가나'] * r
        elif kind == 'vocabulary':
            sents = [' '.join(rng.choice(('', '푸')) + chr(0xAC00 + rng.randrange(5000)) + chr(0xAC00 + rng.randrange(3)) for _ in range(rng.randrange(1, 4)))
                     for _ in range(20010 if c.index == 2 else 4000)]
        else:
            sents = [' '.join(text.small_words(rng, '가나다', 4) for _ in range(k)) for k in (rng.randrange(450, 700), 1500, 3, 1)]
        m.seen('large_' + kind)
        judge(rng, c, sents, kw, 12)
    m.each('large', m.n(14, 150), large)

    def pruned(c):
        # training with a pruning interval may lose counts below the minimum, at most once per pruning
        rng = c.rng
        sents = corpus(rng)
        maxl, maxr, minf, k = rng.choice((2, 4, 10)), rng.choice((2, 4, 6)), rng.choice((1, 1, 2, 3)), rng.choice((1, 2, 5, 9, 1000))
        c.note(sentences=sents, limits=(maxl, maxr), min_frequency=minf, num_for_pruning=k)
        we = WordExtractor(max_left_length=maxl, max_right_length=maxr, min_frequency=minf, verbose_points=0)
        we.train(sents, num_for_pruning=k)
        ref = Ref(sents, maxl, maxr, 1)
        times = (len(sents) + k - 1) // k + 1
        for w in set(ref.L) | set(ref.R):
            for got, true in zip(we.frequency(w), ref.freq(w)):
                m.expect(got == 0 or minf <= got <= true, 'pruned-frequency', word=w, got=got, true=true)
                m.expect(got >= true - times * (minf - 1), 'pruned-too-much', word=w, got=got, true=true)
        m.expect(all(len(w) <= maxl and w in ref.L or len(w) <= maxr and w in ref.R for w in we.words()), 'pruned-foreign-word')
        # extensions across words keep their exact counts
        chars = sorted(set(''.join(sents)) - set(' '))
        probe = sorted(we.words())
        for w in rng.sample(probe, min(8, len(probe))):
            l = sum(we.frequency(ch + w)[1] > 0 for ch in chars) + sum(1 for f in ref.across_left.get(w, []) if f > 1)
            r = sum(we.frequency(w + ch)[0] > 0 for ch in chars) + sum(1 for f in ref.across_right.get(w, []) if f > 1)
            m.eq(tuple(we.accessor_variety(w)), (l, r), 'pruned-accessor-variety', word=w)
            m.seen('pruned', minf > 1)
    m.each('pruned', m.n(150, 2500), pruned)
