# -*- coding: utf-8 -*-
"""C32: learning new noun endings (particle features) from a corpus."""
import contextlib
import io
import math
from collections import Counter
from mon import text
from checks.nounlib import Truth, prefix_free, real_corpus, tiny_corpus, eojeols, v2_reference, v2_follow, v2_candidates, v2_predict, v2_covered, disguise

RULE = '''Corpora of nouns with shipped particles, invented endings that follow many or few nouns, rarely or often, stacked endings, endings that
are nouns + particles, endings that continue a noun; x every threshold x candidate and ignore lists x appending or not. Oracle: the
definition recomputed from a recount of the corpus; the nouns extracted with the learned endings recomputed by the extraction reference.
Non-trivial: some but not all unknown endings learned; keyed by (corpus, thresholds).'''


def learn(cnt, T, follow, pred, ign, ns, nf, ps, pf, chars, ce, ne, seen):
    nouns = {l for l, (sup, sc) in pred.items() if sc >= ns and sup >= nf}
    seen('rare_noun_ignored', any(sc >= ns and sup < nf for sup, sc in pred.values()))
    before, cand = {}, Counter()
    for l, ws in follow.items():
        for w in ws:
            before.setdefault(w[len(l):], []).append((l, cnt[w]))
            if l in nouns and len(w) > len(l):
                cand[w[len(l):]] += cnt[w]
    out = {}

    def H(xs):
        s = sum(xs)
        return -sum(x / s * math.log(x / s) for x in xs if s)
    for r in sorted(cand, key=len):
        if r in T.pos or r in ign or r in nouns:
            seen('noun_not_ending', r in nouns)
            continue
        if cand[r] < pf:
            seen('rare')
            continue
        ls = [(l, k) for l, k in before[r] if len(l) > 1]
        last = Counter()
        for l, k in ls:
            last[l[-1]] += k
        if len(last) < chars or H(list(last.values())) < ce:
            seen('few_last_characters')
            continue
        pos = neg = unk = 0
        i = next((i for i in range(1, len(r)) if r[:i] in nouns), None)
        nj = i is not None and (r[i:] in T.pos or r[i:] in out)
        for l, k in ls:
            if nj or any(l + r[:i] in nouns for i in range(1, len(r) + 1)):
                neg += k
            elif l in nouns:
                pos += k
            else:
                unk += k
        seen('noun_and_ending', nj)
        sc = (pos - neg) / (pos + neg) if pos + neg else 0
        fr = pos if sc >= ps else neg + unk
        if fr < pf or sc < ps:
            seen('low_score', sc < ps)
            continue
        if H([k for l, k in ls if l in nouns]) < ne:
            seen('few_nouns')
            continue
        out[r] = (sc, fr)
        seen('learned')
        seen('learned_negative', sc < 0)
    return out


def run(m):
    from soynlp.noun import LRNounExtractor_v2
    T = Truth()
    names = ('learned', 'rare', 'few_last_characters', 'noun_and_ending', 'low_score', 'few_nouns', 'noun_not_ending', 'rare_noun_ignored')
    m.require(*names, 'not_appended', 'ignored', 'candidates', 'became_common', 'extracted_with', 'limits', 'default_thresholds', 'wide', 'renamed_characters')

    def corpus(rng):
        k = rng.random()
        if k < .1:
            return tiny_corpus(rng, 60)
        if k < .25:
            return real_corpus(rng, 100)
        if k < .33:
            # an ending after very many nouns, some of them very frequent
            syl = rng.sample(T.free, 200)
            tails = syl[:rng.choice((3, 5, 12))]
            nouns = [syl[20 + i] + rng.choice(tails) for i in range(rng.choice((60, 130)))]
            J, new = prefix_free(rng, [r for r in T.pos_l if len(r) < 4], 3), [syl[190], syl[191] + syl[192], syl[193] + rng.choice(T.pos_l)]
            words = []
            for i, N in enumerate(nouns):
                for j in J[:2]:
                    words += [N + j] * rng.choice((1, 2, 6))
                for r in new:
                    if rng.random() < .9:
                        words += [N + r] * (rng.choice((120, 300, 500)) if i < 3 else rng.choice((1, 1, 2)))
            for r in new:
                words += [syl[194 + i % 4] + syl[150 + i] + r for i in range(rng.choice((0, 10, 40)))]
            m.seen('wide')
            rng.shuffle(words)
            return [' '.join(words[i:i + 60]) for i in range(0, len(words), 60)]
        syl = rng.sample(T.free, 40)
        nouns = [''.join(syl.pop() for _ in range(rng.choice((1, 2, 2, 2, 3)))) for _ in range(rng.choice((3, 8, 12)))]
        if rng.random() < .4:
            nouns += [x + rng.choice(nouns)[-1] for x in nouns[:3]]      # the same last character
        if rng.random() < .4:
            nouns += [rng.choice(nouns) + rng.choice(syl) for _ in range(2)]        # a noun that continues another
        J = rng.sample(T.pos_l, 5)
        new = [''.join(rng.sample(syl, rng.choice((1, 1, 2)))) for _ in range(4)]
        if rng.random() < .3:
            # a one-syllable noun with particles, endings built from learned ones
            nouns.append(syl.pop())
            a = rng.choice(new)
            new += [rng.choice(nouns) + a, rng.choice(nouns) + a + rng.choice(new), a + rng.choice(nouns) + rng.choice(new)]
        new += [rng.choice(new) + rng.choice(J), rng.choice(nouns) + rng.choice(J), rng.choice(nouns) + rng.choice(new), rng.choice(T.neg_l), rng.choice(T.common_l)]
        words = []
        for N in nouns:
            for j in rng.sample(J, rng.choice((2, 3, 5))):
                words += [N + j] * rng.choice((1, 3, 6))
            words += [N] * rng.choice((0, 0, 5, 40))
        for r in new:
            for N in rng.sample(nouns, rng.choice((1, 2, len(nouns)))):
                words += [N + r] * rng.choice((1, 3, 20))
        for r in rng.sample(new, 3):
            for _ in range(3):
                words += [text.eojeol(rng)[:3] + r] * rng.choice((1, 9))
        rng.shuffle(words)
        return [' '.join(words[i:i + 6]) for i in range(0, len(words), 6)]

    def limits(rng):
        """an ending on either side of one of the default limits"""
        syl = rng.sample(T.free, 40)
        tails = syl[:rng.choice((3, 4, 4, 5))]
        J = [r for r in rng.sample(T.pos_l, 30) if len(r) < 4]
        J = [r for r in J if not any(x != r and (x.startswith(r) or r.startswith(x)) for x in J)][:4]
        nouns = [syl[9 + i] + tails[i % len(tails)] for i in range(rng.choice((5, 6, 8)))]
        r = syl[8] + rng.choice(('', syl[7]))
        words = []
        for N in nouns:
            k, a = rng.choice((99, 100, 100, 101)), rng.randrange(20, 60)
            words += [N + J[0]] * a + [N + J[1]] * (k - a)
        total = rng.choice((999, 1000, 1000, 1001, 1500))
        words += [nouns[i % len(nouns)] + r for i in range(total)]
        # the same ending where it continues a longer noun
        if rng.random() < .5:
            X = nouns[0] + r[0]
            words += [X + J[0]] * 60 + [X + J[1]] * 60
        if rng.random() < .5:
            words += [syl[30] + syl[31] + r] * rng.choice((10, 600))
        m.seen('limits')
        return [' '.join(words[i:i + 6]) for i in range(0, len(words), 6)]

    def close(a, b, mech, **w):
        if m.eq(sorted(a), sorted(b), mech, **w):
            for r in a:
                m.expect(abs(a[r][0] - b[r][0]) < 1e-9 and a[r][1] == b[r][1], mech + '-value', item=r, got=a[r], want=b[r], **w)

    def method(c):
        rng = c.rng
        sents = corpus(rng)
        if rng.random() < .3:
            sents, _ = disguise(rng, sents)
            m.seen('renamed_characters')
        L, R = rng.choice(((10, 9), (10, 9), (4, 3)))
        th = dict(min_noun_score=rng.choice((.1, .3, .7)), min_noun_frequency=rng.choice((1, 5, 10)), min_pos_score=rng.choice((-2, 0, .3, .9, .5, 1.0, -1)),
                  min_pos_feature_frequency=rng.choice((1, 5, 20)), min_num_of_unique_lastchar=rng.choice((0, 1, 2, 4)),
                  min_entropy_of_lastchar=rng.choice((0, .5, 1)), min_noun_entropy=rng.choice((0, .5, 1.5)))
        if rng.random() < .1:
            th = {}
            sents = sents * rng.choice((20, 60))
            m.seen('default_thresholds')
        ign, cands = None, None
        kw = dict(th)
        cnt = dict(eojeols(sents))
        cnt = {w: k for w, k in cnt.items() if len(w) <= L + R}
        follow = v2_follow(cnt, L, R)
        if rng.random() < .3:
            ign = set(rng.sample(sorted({w[-1] for w in cnt} | {'은'}), 1)) | {w[-2:] for w in list(cnt)[:5]}
            kw['ignore_features'] = ign
            m.seen('ignored')
        if rng.random() < .2:
            cands = rng.sample(sorted(follow), max(1, len(follow) // 3))
            kw['noun_candidates'] = rng.choice((list, set, dict.fromkeys))(cands)
            m.seen('candidates')
        if rng.random() < .3:
            kw['append_extracted_features'] = rng.random() < .3
        c.note(sentences=sents[:300], limits=(L, R), arguments={k: v if isinstance(v, (int, float, bool)) else sorted(v) for k, v in kw.items()})
        x = LRNounExtractor_v2(max_left_length=L, max_right_length=R, verbose=rng.random() < .2)
        with contextlib.redirect_stdout(io.StringIO()):
            x.train(sents)
            x.extract_domain_pos_features(**kw)
        told = getattr(x, '_pos_features_extracted', None)
        ns = th.get('min_noun_score', .3)
        pred = v2_predict(cnt, T, follow, cands or v2_candidates(follow, T.pos), ns)
        want = learn(cnt, T, follow, pred, ign or (), ns, th.get('min_noun_frequency', 100), th.get('min_pos_score', .3),
                     th.get('min_pos_feature_frequency', 1000), th.get('min_num_of_unique_lastchar', 4), th.get('min_entropy_of_lastchar', .5),
                     th.get('min_noun_entropy', 1.5), m.seen)
        got = want if told is None else dict(told)
        close(got, want, 'learned-endings')
        m.expect('' not in got, 'empty-ending-learned')
        m.eq(dict(x.lrgraph.to_EojeolCounter().items()), cnt, 'graph-changed')
        if kw.get('append_extracted_features', True):
            pos, com = T.pos | (set(got) - T.neg), T.common | (set(got) & T.neg)
            m.seen('became_common', len(com) > len(T.common))
        else:
            pos, com = T.pos, T.common
            m.seen('not_appended', len(got))
        for name, want_f in (('_pos_features', pos), ('_neg_features', T.neg), ('_common_features', com)):
            now = set(getattr(x, name, want_f))
            m.expect(now == want_f, 'features-after', table=name, differing=sorted(now ^ want_f))
        # the nouns found with the learned endings
        T2 = Truth(pos, T.neg)
        T2.pos, T2.neg, T2.common = pos, T.neg, com
        with contextlib.redirect_stdout(io.StringIO()):
            nouns = x.extract(reset_lrgraph=False)
        want2, _ = v2_reference(cnt, T2, L, R)
        if m.eq(sorted(nouns), sorted(want2), 'nouns-with-learned-endings'):
            for w, s in nouns.items():
                m.expect(s.frequency == want2[w][0] and abs(s.score - want2[w][1]) < 1e-9, 'nouns-with-learned-endings', noun=w, got=s, want=want2[w])
        gone = v2_covered(cnt, T2, follow, nouns)
        m.eq(dict(x.lrgraph.to_EojeolCounter().items()), {w: k for w, k in cnt.items() if w not in gone}, 'words-left')
        if got and len({w[i:] for w in cnt for i in range(1, len(w))}) > len(got):
            m.nontrivial(sents, sorted(th.items()), sorted(cands or ()))

    def option(c):
        """extract_pos_feature=True: learn with the default thresholds, then extract"""
        rng = c.rng
        sents = limits(rng) if rng.random() < .5 else corpus(rng) * rng.choice((1, 30, 80))
        c.note(sentences=sents[:200], copies=len(sents))
        x = LRNounExtractor_v2(verbose=False, extract_pos_feature=True)
        with contextlib.redirect_stdout(io.StringIO()):
            nouns = x.train_extract(sents)
        cnt = {w: k for w, k in eojeols(sents).items() if len(w) <= 19}
        follow = v2_follow(cnt, 10, 9)
        cands = v2_candidates(follow, T.pos)
        new = learn(cnt, T, follow, v2_predict(cnt, T, follow, cands), (), .3, 100, .3, 1000, 4, .5, 1.5, lambda *a: None)
        com = T.common | (set(new) & T.neg)
        T2 = Truth(T.pos, T.neg)
        T2.pos, T2.neg, T2.common = T.pos | (set(new) - T.neg), T.neg, com
        want, _ = v2_reference(cnt, T2, cands=cands)
        m.seen('extracted_with', len(new))
        if m.eq(sorted(nouns), sorted(want), 'option-nouns'):
            for w, s in nouns.items():
                m.expect(s.frequency == want[w][0] and abs(s.score - want[w][1]) < 1e-9, 'option-nouns', noun=w, got=s, want=want[w])
        m.nontrivial(sents) if new else None
    m.each('learn', m.n(250, 9000), method)
    m.each('option', m.n(100, 1500), option)
