# -*- coding: utf-8 -*-
"""C15: EojeolCounter <-> LRGraph conversions, save/load."""
import os
import tempfile
from collections import Counter, defaultdict
from mon import text

RULE = '''random counters (small alphabets, hostile words up to 15+ characters, empty) and length limits; conversions, files in a
scratch directory, edits between them. Oracle: direct split counts. Non-trivial: three or more distinct words with some split cut by
the limits; keyed by (counter, limits).'''


def view(g, universe):
    out = {}
    for l in {l for l, _ in universe}:
        for r, n in g.get_r(l, -1):
            out[l, r] = n
    return out


def rview(g, universe):
    out = {}
    for r in {r for _, r in universe if r}:
        for l, n in g.get_l(r, -1):
            out[l, r] = n
    return out


def run(m):
    from soynlp.utils import EojeolCounter, LRGraph
    m.require('cut', 'one_syllable', 'counter_file', 'graph_file', 'empty', 'edited_graph_file', 'not_fitting', 'big')

    def same(g, pairs, universe, mech, **kw):
        m.eq(view(g, universe), pairs, mech + '-left', **kw)
        m.eq(rview(g, universe), {k: v for k, v in pairs.items() if k[1]}, mech + '-right', **kw)

    def body(c):
        rng = c.rng
        if rng.random() < .08:
            words = []
        elif rng.random() < .6:
            words = [text.small_words(rng, rng.choice(('가나', '가나', '가나다라', 'aA', 'aA가')), rng.choice((3, 6))) for _ in range(rng.randrange(1, 25))]
        else:
            words = [w for _ in range(6) for w in text.hostile(rng).split() if len(w) <= 30]
        if words and rng.random() < .1:
            words += [words[0]] * rng.choice((12, 150, 1500)) + [words[-1]] * rng.choice((9, 999))
        cnt = dict(Counter(words))
        big = bool(words) and rng.random() < .1
        if big:
            # counts beyond what a test corpus can hold, read from a file
            cnt = {w: rng.choice((n, rng.randrange(1, 10 ** 4), rng.randrange(10 ** 5, 10 ** 12))) for w, n in cnt.items()}
            with tempfile.TemporaryDirectory(prefix='verif-c15-') as d:
                with open(os.path.join(d, 'c.txt'), 'w', encoding='utf-8') as f:
                    f.writelines('%s %d\n' % x for x in cnt.items())
                ec = EojeolCounter()
                ec.load(os.path.join(d, 'c.txt'))
            m.seen('big')
        elif words:
            ec = EojeolCounter([' '.join(words)], max_length=40)
        else:
            ec = EojeolCounter(['가'], min_count=2)
            m.seen('empty')
        m.eq(dict(ec.items()), cnt, 'counter')
        lmax, rmax = rng.choice(((10, 9), (2, 1), (3, 2), (2, 5), (40, 40)))
        one = rng.random() < .4
        c.note(counter=cnt, limits=(lmax, rmax), ignore_one_syllable=one)
        pairs = {}
        universe = set()
        for w, n in cnt.items():
            for i in range(1, len(w) + 1):
                l, r = w[:i], w[i:]
                universe.add((l, r))
                if len(l) <= lmax and len(r) <= rmax and not (one and len(w) == 1):
                    pairs[l, r] = pairs.get((l, r), 0) + n
        cut = len(universe) > len(pairs)
        m.seen('cut', cut)
        m.seen('one_syllable', one and any(len(w) == 1 for w in cnt))
        if one and rng.random() < .3:
            g = ec.to_lrgraph(l_max_length=lmax, r_max_length=rmax, ignore_one_syllable=True)
        elif (lmax, rmax) == (10, 9) and not one:
            g = ec.to_lrgraph()
        else:
            g = ec.to_lrgraph(lmax, rmax, one)
        same(g, pairs, universe, 'to-graph')
        m.eq(dict(ec.items()), cnt, 'source-counter-modified')
        fits = {w: n for w, n in cnt.items() if len(w) <= lmax + rmax and not (one and len(w) == 1)}
        m.seen('not_fitting', len(fits) < len(cnt))
        back = g.to_EojeolCounter()
        m.eq(dict(back.items()), fits, 'back-to-counter')
        m.eq(back.num_of_uncovered_eojeols, sum(fits.values()), 'back-total')
        if fits:
            # coverage bookkeeping of the converted counter starts from its own total
            w0 = sorted(fits)[0]
            back.remove_covered_eojeols({w0})
            m.close(back.coverage, fits[w0] / sum(fits.values()), 'back-coverage')
        same(g, pairs, universe, 'graph-after-convert')
        with tempfile.TemporaryDirectory(prefix='verif-c15-') as d:
            p = os.path.join(d, rng.choice(('c.txt', 'sub/dir/c.txt')))
            ec.save(p)
            e2 = EojeolCounter()
            if rng.random() < .5:
                e2 = EojeolCounter(['묵은 말'] * rng.choice((1, 200)))
                e2.remove_covered_eojeols({'말'})
            e2.load(p)
            m.seen('counter_file')
            m.eq(dict(e2.items()), cnt, 'counter-file')
            m.eq((len(e2), e2.num_of_uncovered_eojeols, e2.coverage), (len(cnt), sum(cnt.values()), 0), 'counter-file-totals')
            if cnt:
                e2.remove_covered_eojeols(set(list(cnt)[:1]))
                m.close(e2.coverage, cnt[list(cnt)[0]] / sum(cnt.values()), 'counter-file-coverage')
            m.eq(dict(ec.items()), cnt, 'saved-counter-modified')
            # graph file holds the graph as constructed, whatever edits happened
            edits = []
            if rng.random() < .5 and cnt:
                for w in rng.sample(sorted(cnt), min(2, len(cnt))):
                    g.remove_eojeol(w, cnt[w])
                    edits.append(w)
                m.seen('edited_graph_file')
            p = os.path.join(d, rng.choice(('g.txt', 'sub2/g.txt')))
            g.save(p)
            g2 = LRGraph(l_max_length=lmax, r_max_length=rmax) if rng.random() < .5 else LRGraph(sents=['묵은 말들'])
            g2.load(p)
            m.seen('graph_file')
            uni = universe | {('묵', '은'), ('말', '들'), ('묵은', '')}
            same(g2, pairs, uni, 'graph-file', edits=edits)
            if pairs:
                k = sorted(pairs)[0]
                g2.remove_lr_pair(*k, count=10 ** 13)
                g2.reset_lrgraph()
                same(g2, pairs, uni, 'loaded-graph-reset')
                m.eq(dict(g2.to_EojeolCounter(reset_lrgraph=True).items()), fits, 'loaded-graph-to-counter')
                m.eq(dict(g.to_EojeolCounter(reset_lrgraph=True).items()), fits, 'origin-to-counter')
                h = g.copy_compatified_lrgraph_origin()
                same(h, pairs, uni, 'copy')
                m.eq((h.l_max_length, h.r_max_length), (g.l_max_length, g.r_max_length), 'copy-limits')
                for k in rng.sample(sorted(pairs), min(3, len(pairs))):
                    h.remove_lr_pair(*k)
                    h.add_lr_pair(k[0], '새끝', 7)
            if pairs:
                g.reset_lrgraph()
                same(g, pairs, universe, 'saved-graph-reset')
        if len(cnt) > 2 and cut:
            m.nontrivial(sorted(cnt.items()), lmax, rmax, one)
    m.each('counters', m.n(1200, 20000), body)

    def many(c):
        """more words than any test corpus has"""
        rng = c.rng
        n = rng.choice((70000, 130000)) if m.tier == 'thorough' else 70000
        cnt = {chr(0xAC00 + i % 11000) + chr(0xAC00 + i // 11000) + '는' * (i % 3): 1 + i % 5 for i in range(n)}
        c.note(words=n)
        ec = EojeolCounter(None)
        with tempfile.TemporaryDirectory(prefix='verif-c15-') as d:
            p = os.path.join(d, 'c.txt')
            with open(p, 'w', encoding='utf-8') as f:
                f.writelines('%s %d\n' % x for x in cnt.items())
            ec.load(p)
            m.eq(dict(ec.items()), cnt, 'many-loaded')
            ec.save(p)
            e2 = EojeolCounter(None)
            e2.load(p)
            m.eq(dict(e2.items()), cnt, 'many-counter-file')
            g = ec.to_lrgraph()
            m.eq(dict(g.to_EojeolCounter().items()), cnt, 'many-back-to-counter')
            g.save(p)
            g2 = LRGraph()
            g2.load(p)
            m.eq(dict(g2.to_EojeolCounter().items()), cnt, 'many-graph-file')
            for l in rng.sample(sorted(cnt), 300):
                for x in (g, g2):
                    m.eq(sorted(x.get_r(l[:1], -1)), sorted(g.get_r(l[:1], -1)), 'many-graph-left')
                    m.eq(dict(x.get_r(l, -1)).get(''), cnt[l], 'many-graph-word', word=l)
    m.each('many', m.n(1, 2), many)
