# -*- coding: utf-8 -*-
"""C33: learning predicate endings and stems from a corpus."""
import contextlib
import io
import math
import re
from collections import Counter
from mon import text
from checks.c22 import reference
from checks.c23 import predicates, bare_nouns, is_verb
from checks.nounlib import disguise, v2_follow

RULE = '''Corpora of known and unknown stems with known and unknown endings, words that are nouns, noun + verb, stems that end in stems,
endings that end in endings, foreign words x every threshold. Oracle: the definitions of both extractors recomputed from a recount of
the corpus; the predicates extracted with the learned parts recomputed. Non-trivial: some unknown parts learned and some rejected.'''
ADV = {'거나', '게', '게는', '게도', '고', '고도', '고만', '는', '다', '다가', '서는', '아', '은'}


def parts(l, r):
    from soynlp.lemmatizer import lemma_candidate
    try:
        return lemma_candidate(l, r)
    except Exception:
        return ()


def splits(cnt, L, R):
    return [(w[:i], w[i:], k) for w, k in cnt.items() for i in range(1, min(len(w), L) + 1) if len(w) - i <= R]


def mean(pairs):
    out = {}
    for x, k, s in pairs:
        f, t = out.get(x, (0, 0))
        out[x] = f + k, t + k * s
    return {x: (f, t / f) for x, (f, t) in out.items()}


def tolerance(pairs):
    """how far the mean may be off: nothing when only sums of few eighths are involved"""
    out, one = {}, {}
    for x, k, s in pairs:
        one.setdefault(x, s)
        out[x] = 0 if one[x] == s and s * 8 == int(s * 8) and out.get(x, 0) == 0 else 1e-9
    return out


def endings(cnt, stems, nouns, features, ms, mf, L=10, R=9, seen=lambda *a: None, surf=None, judged=None):
    """-> (surely, possibly) {ending: (frequency, score)}: differing in scores that equal the minimum up to rounding"""
    from soynlp.lemmatizer import _conjugate_stem
    surf = surf or {l for s in stems for l in _conjugate_stem(s)}
    by = {}
    for l, r, k in splits(cnt, L, R):
        if r:
            by.setdefault(r, []).append((l, k))
    live = set(cnt)
    scores = {}
    for r in sorted((r for r, ls in by.items() if any(l in surf for l, _ in ls)), key=len, reverse=True):
        pos = neg = unk = n = 0
        alive = [(l, k) for l, k in by[r] if l + r in live]
        for l, k in alive:
            longer = any(l + r[:i] in surf for i in range(1, len(r) + 1))
            n += l in surf and not longer
            if l + r in nouns or longer:
                seen('noun_word', l + r in nouns)
                seen('longer_stem', longer)
            elif l in surf or l[0] in nouns and l[1:] in surf:
                pos += k
                seen('noun_and_stem', l not in surf)
            elif any(l[i:] in surf for i in range(1, len(l))):
                unk += k
                seen('ends_in_stem')
            else:
                neg += k
        sc = (pos - neg) / (pos + neg) if pos + neg else 0
        seen('few_stems', n < features)
        if judged is not None and r:
            judged[r] = ((pos if sc >= ms else neg) + unk, sc) if n >= features else (0, 0)
        if n < features:
            sc = 0
        scores[r] = sc
        if sc >= ms:
            live -= {l + r for l, _ in alive if l in surf or l[0] in nouns and l[1:] in surf}
        seen('low_ending', sc < ms)
    found = [(e, k, scores[r]) for r in scores if scores[r] >= ms for l, k in by[r] for s, e in parts(l, r) if s in stems]
    got, d = mean(found), tolerance(found)
    seen('exactly_minimum', sum(v[1] == ms and not d[e] and v[0] >= mf for e, v in got.items()))
    return tuple({e: v for e, v in got.items() if v[0] >= mf and v[1] >= ms + i * d[e]} for i in (1, -1))


def learned_stems(cnt, stems, eomis, kinds, ent, ms, mf, ignore=(), L=10, R=9, seen=lambda *a: None):
    from soynlp.lemmatizer import conjugate
    Ls, Rs = set(), set()
    for s in stems:
        for e in eomis:
            try:
                ws = conjugate(s, e)
            except Exception:
                continue
            for w in ws:
                if cnt.get(w) and len(w) > len(s):
                    Ls.add(w[:len(s)])
                    Rs.add(w[len(s):])
    by, cand = {}, Counter()
    for l, r, k in splits(cnt, L, R):
        by.setdefault(l, []).append((r, k))
        if r in Rs and l not in Ls and l not in ignore:
            cand[l] += k
    out = {}
    for l, k in cand.items():
        if k < mf or l in Rs or len(l) == 1 or l[-1] == '다':
            seen('rare_stem', k < mf)
            seen('looks_like_ending', l in Rs)
            continue
        pos = neg = unk = 0
        good = []
        for r, k in by[l]:
            if r in ADV:
                continue
            broken = any(r[:i] in Ls and r[i:] in Rs for i in range(1, len(r))) or any(l[-i:] + r in Rs for i in range(1, len(l) + 1))
            seen('broken_ending', broken)
            good += [k] if r in Rs and not broken else []
            if not r:
                neg += k
            elif r in Rs:
                pos += k
            elif broken:
                neg += k
            else:
                unk += k
        s = sum(good)
        H = -sum(x / s * math.log(x / s) for x in good) if len(good) > 1 else 0
        sc = (pos - neg) / (pos + neg) if pos + neg else 0
        f = pos if sc >= ms else neg + unk
        if len({r[0] for r, _ in by[l] if r}) < kinds or H < ent - 1e-9:
            seen('few_kinds')
            sc = f = 0
        if f < mf:
            sc = 0
        if sc >= ms and f >= mf:
            out[l] = sc, f
        seen('low_stem', sc < ms)

    def wrong(l):
        if any(l[:i] in out for i in range(2, len(l))):
            seen('begins_with_stem')
            return True
        for i in range(1, len(l)):
            if (l[:i] in Ls or l[:i] in out) and any(l[i:j] in Rs for j in range(i + 1, len(l) + 1)):
                seen('stem_and_ending')
                return True
        return False
    kept = {l: v for l, v in out.items() if not wrong(l)}
    return mean((s, k, kept[l][0]) for l in kept for r, k in by[l] for s, e in parts(l, r) if e in eomis), kept, set(out) - set(kept)


def run(m):
    from soynlp.predicator import PredicatorExtractor, EomiExtractor, StemExtractor
    from soynlp.utils import EojeolCounter, LRGraph
    from soynlp.utils.utils import installpath

    def words(p, k):
        return [x.split()[0] for x in open('%s/lemmatizer/dictionary/default/%s' % (installpath, p), encoding='utf-8') if int(x.split()[1]) >= k]
    kor = re.compile('[가-힣]+$')
    STEM = [x for x in words('Stem/Adjective.txt', 2) + words('Stem/Verb.txt', 2) if kor.match(x)]
    EOMI = [e for e in words('Eomi/Eomi.txt', 20) if re.fullmatch('[가-힣ㄴㄹㅁㅂㅆ][가-힣]*', e)]
    ADVL = sorted(ADV)
    LONG = [e for e in EOMI if len(e) > 3 and kor.match(e)]
    SUFFIX = {'만하', '스럽', '시럽', '아니', '거리', '당하', '당허', '시키'}
    m.require('noun_word', 'longer_stem', 'noun_and_stem', 'ends_in_stem', 'few_stems', 'low_ending', 'rare_stem', 'looks_like_ending',
              'broken_ending', 'few_kinds', 'low_stem', 'begins_with_stem', 'stem_and_ending', 'new_ending', 'new_stem', 'ignored_stem',
              'pipeline_ending', 'pipeline_stem', 'pipeline_both', 'extracted_again', 'kind_suffix_verb',
              'kind_suffix_adjective', 'kind_forms_verb', 'kind_forms_adjective', 'non_hangul', 'long_ending_left', 'exactly_minimum', 'renamed_characters')

    def corpus(rng):
        S = rng.sample(STEM, rng.choice((4, 10, 25)))
        if rng.random() < .5:
            S += [rng.choice('가나다라마바사아자차') + rng.choice(S) for _ in range(3)]
            S += [rng.choice(S) + rng.choice(S) for _ in range(2)]
        new = [(text.syllable(rng) + text.syllable(rng))[:rng.choice((1, 2))] + rng.choice(('하', '되', '거리', '리', '우', '크')) for _ in range(4)] + [rng.choice(STEM) for _ in range(3)]
        if rng.random() < .4:
            new += [rng.choice(new) + x for x in rng.sample('하게지리고', 2)]
            new += [rng.choice(S) + rng.choice('고게지어') + rng.choice(S)[:1]]
        E = rng.sample(EOMI[:150], rng.choice((4, 10, 20))) + rng.sample(ADVL, 2)
        newE = [e + rng.choice(('냥', '잖앙', '쿠', '요', '댜')) for e in rng.sample(E, 2)] + rng.sample(EOMI, 3) + ['냥', 'ㄴ댱']
        singles = rng.sample('가나다라마바사아자차', 3)
        new += [rng.choice(singles) + rng.choice(S) for _ in range(rng.choice((0, 3)))]
        new, S = [s for s in new if kor.match(s)], [s for s in S if kor.match(s)]
        out = []
        for s in S + new:
            for e in rng.sample(E, min(len(E), rng.choice((1, 4, 12)))) + (rng.sample(newE, rng.choice((0, 1, 3)))):
                ws = sorted(reference(s, e)[0])
                for w in ws[:2] if kor.match(s + e[1:]) else []:
                    out += [w] * rng.choice((1, 2, 8))
        if rng.random() < .5:
            w = rng.choice(S)
            for e in rng.sample([e for e in E if kor.match(e) and len(e) > 1] or ['지만'], 1):
                out += [w + e] + [e + x for x in rng.sample(ADVL + ['지만', '니까'], 4) for _ in range(5)]      # an ending in the place of a stem
        if rng.random() < .4:
            for e in rng.sample([e for e in E if kor.match(e) and len(e) > 1] or ['지만'], 1) + rng.sample([e for e in E if kor.match(e) and len(e) > 2] or ['습니까'], 1):
                s = rng.choice(S)
                out += [s + e] + [e[:2] + x for x in rng.sample(E, min(4, len(E))) + [e[2:]] for _ in range(5) if kor.match(x)]   # a part of an ending in the place of a stem
        if rng.random() < .4:
            # the left part ends with most of a long ending
            for e in rng.sample(LONG, 2):
                if rng.random() < .6:
                    E.append(e)
                s, k = rng.choice(S), rng.randrange(2, len(e))
                out += [s + e] * 2
                for h in (e[:k], text.syllable(rng) + e[:k], s + e[:k]):
                    out += [h + x for x in rng.sample(E, min(4, len(E))) + [e[k:]] * 2 for _ in range(rng.choice((1, 5))) if kor.match(x)]
            m.seen('long_ending_left')
        if rng.random() < .3:
            s, e = rng.choice(S), rng.choice(E)
            E += [s + e] if kor.match(s + e) and len(s + e) < 5 else []                     # an ending made of a stem and an ending
            out += [x + s + e for x in rng.sample(S + new, 4) for _ in range(3)] + [s + e]
        if rng.random() < .4:
            for s in rng.sample([s for s in S if len(s) > 2] or S, 1):
                for e in rng.sample(E + newE, 4):
                    out += [text.syllable(rng) + w for w in sorted(reference(s, e)[0])[:2] if kor.match(s + e[1:])] * 3    # a long stem ends the left part
        if rng.random() < .5:
            out += [text.eojeol(rng) + rng.choice(newE + E) for _ in range(6)]
        if rng.random() < .5:
            out += [w for w in rng.sample(S + new, 2) for _ in range(rng.choice((1, 20)))]
        if rng.random() < .4:
            out += ['A' + rng.choice(E), rng.choice(S) + 'ㅋㅋ', 'abc', rng.choice(new) + '1']
            m.seen('non_hangul')
        heavy = rng.sample(out, min(len(out), 3)) if rng.random() < .08 else []
        nouns = set(rng.sample(out, min(len(out), rng.choice((0, 2, 5))))) | set(singles)
        nouns |= {w[:2] for w in rng.sample(out, min(len(out), rng.choice((0, 0, 3))))}
        out += [w for w in heavy for _ in range(rng.choice((1200, 11000)))]
        rng.shuffle(out)
        m.seen('heavy_words', len(heavy))
        if rng.random() < .25:
            out, (S, new, E, nouns) = disguise(rng, out, (list(S), list(new), list(E), nouns))
            S, new, E = ([w for w in x if kor.match(w[w[0] in 'ㄴㄹㅁㅂ':] or w)] for x in (S, new, E))
            m.seen('renamed_characters')
        return set(S), set(new), set(E), nouns, Counter(w for w in out if w)

    def same(a, b, mech, possible=None, **w):
        possible = possible or b
        if m.expect(set(b) <= set(a) <= set(possible), mech, extra=sorted(set(a) - set(possible)), missing=sorted(set(b) - set(a)), **w):
            for x in a:
                f, s = possible[x]
                m.expect(a[x][0] == f and abs(a[x][1] - s) < 1e-9, mech + '-value', item=x, got=tuple(a[x]), want=(f, s), **w)

    def graph(cnt, L, R):
        g = {}
        for l, r, k in splits(cnt, L, R):
            g.setdefault(l, {})[r] = k
        return LRGraph(lrgraph=g, l_max_length=L, r_max_length=R)

    def eomi(c, corpus=corpus):
        rng = c.rng
        S, new, E, nouns, cnt = corpus(rng)
        L, R = rng.choice(((10, 9), (10, 9), (5, 4)))
        cnt = Counter({w: k for w, k in cnt.items() if len(w) <= L + R})
        feats, ms, mf = rng.choice((1, 1, 2, 5)), rng.choice((.1, .3, .5, .7, 1)), rng.choice((1, 3, 20))
        c.note(counts=cnt, stems=sorted(S), nouns=sorted(nouns), limits=(L, R), min_num_of_features=feats, min_eomi_score=ms, min_eomi_frequency=mf)
        g = graph(cnt, L, R)
        with contextlib.redirect_stdout(io.StringIO()):
            x = EomiExtractor(g, set(S), set(nouns), min_num_of_features=feats, verbose=rng.random() < .2)
            got = x.extract(min_eomi_score=ms, min_eomi_frequency=mf, reset_lrgraph=rng.random() < .8)
            again = x.extract(min_eomi_score=ms, min_eomi_frequency=mf)
        lo, hi = endings(cnt, S, nouns, feats, ms, mf, L, R, m.seen)
        same(got, lo, 'learned-endings', hi)
        m.eq(sorted(again), sorted(got), 'endings-again')
        m.eq(dict(g.to_EojeolCounter().items()), dict(cnt), 'endings-changed-the-graph')
        m.seen('new_ending', len(set(got) - E))
        m.seen('extracted_again')
        if got and len(got) < len({w[i:] for w in cnt for i in range(1, len(w))}):
            m.nontrivial('e', cnt, sorted(S), feats, ms, mf)

    def stem(c, corpus=corpus):
        rng = c.rng
        S, new, E, nouns, cnt = corpus(rng)
        L, R = rng.choice(((10, 9), (10, 9), (5, 4)))
        cnt = Counter({w: k for w, k in cnt.items() if len(w) <= L + R})
        kinds, ent, ms, mf = rng.choice((1, 2, 4, 10)), rng.choice((0, 0, .5, 1, 2)), rng.choice((.1, .5, .9)), rng.choice((1, 5, 20))
        ign = set(rng.sample(sorted(new), 1)) | {w[:2] for w in list(cnt)[:3]} if rng.random() < .3 else None
        m.seen('ignored_stem', ign is not None)
        c.note(counts=cnt, stems=sorted(S), eomis=sorted(E), limits=(L, R), min_num_of_unique_R_char=kinds, min_entropy_of_R_char=ent,
               min_stem_score=ms, min_stem_frequency=mf, L_ignore=ign and sorted(ign))
        g = graph(cnt, L, R)
        with contextlib.redirect_stdout(io.StringIO()):
            x = StemExtractor(g, set(S), set(E), kinds, ent, verbose=rng.random() < .2)
            got = x.extract(ign, ms, mf)
            again = x.extract(ign, ms, mf)
        want, kept, gone = learned_stems(cnt, S, E, kinds, ent, ms, mf, ign or (), L, R, m.seen)
        same(got, want, 'learned-stems')
        m.expect(again == got, 'stems-again')
        same(x.stem_surfaces, kept, 'stem-surfaces')
        m.eq(sorted(x.removals), sorted(gone), 'stem-removals')
        m.eq(dict(g.to_EojeolCounter().items()), dict(cnt), 'stems-changed-the-graph')
        m.seen('new_stem', len(set(got) - S))
        if got:
            m.nontrivial('s', cnt, sorted(S), kinds, ms, mf)

    def kinds(rng):
        """learned stems of both kinds: recognised by their suffix, or by forms that only verbs have"""
        S = rng.sample(STEM, 6)
        new = [text.syllable(rng) + rng.choice(('', text.syllable(rng))) + x for x in rng.sample(
            ('같', '답', '롭', '만하', '스럽', '시럽', '이', '아니', '거리', '당하', '당허', '시키', '먹', '서', '켜', '오', '크', '굵', '하', '되'), 7)]
        only = rng.sample(('ㄴ다', '는다', 'ㄴ다고', '는다고', '고있는', '어라', '아라', '자', 'ㄹ까', '을까', 'ㄹ까봐', '을까봐', '까', '까봐'), rng.choice((1, 2, 3, 8)))
        E = rng.sample(('지만', '니까', '면서', '네요', '었다', '었고', '지요', '던데', '더라', '거든', '습니다', '려고'), 8) + only
        cnt = Counter()
        for s in S + new:
            for e in E:
                for w in sorted(reference(s, e)[0]):
                    if rng.random() < (.8 if e not in only else .7):
                        cnt[w] += rng.choice((1, 2, 8))
        return set(S), set(new), set(E), set(), cnt

    def wide(rng):
        """stems with very many right parts, many stems to learn"""
        E = [e for e in EOMI if len(e) < 6]
        S = rng.sample([s for s in STEM if len(s) < 4], 6)
        new = [text.syllable(rng) + text.syllable(rng) + x for x in ('하', '되', '거리') for _ in range(25)]
        cnt = Counter()
        for s in S + new:
            many = s in S or rng.random() < .1
            for e in E if many else rng.sample(E, 8):
                for w in sorted(reference(s, e)[0])[:2]:
                    cnt[w] += rng.choice((1, 2, 30))
            if many:
                for _ in range(60):
                    cnt[s + ''.join(text.syllable(rng) for _ in range(rng.choice((1, 2))))] += 1
        cnt = Counter({w: k for w, k in cnt.items() if kor.match(w)})
        words = list(cnt)
        rng.shuffle(words)
        return set(S), set(new), set(E), set(), Counter({w: cnt[w] for w in words})

    def many(rng):
        """endings that follow very many left parts: stems, words ending in stems, and words that are no stems"""
        S = rng.sample([s for s in STEM if len(s) < 4], 120)
        E = rng.sample([e for e in EOMI if len(e) < 4], 3) + [text.syllable(rng) + text.syllable(rng)]
        cnt = Counter()
        for s in S:
            for e in E:
                for w in sorted(reference(s, e)[0])[:1] if rng.random() < .7 and kor.match(s + e[1:]) else ():
                    cnt[w] += rng.choice((1, 1, 2, 9))
        for e in E:
            for _ in range(rng.choice((10, 60, 150))):
                cnt[rng.choice(('', text.syllable(rng))) + text.syllable(rng) + rng.choice((text.syllable(rng), rng.choice(S))) + e] += rng.choice((1, 1, 3))
        cnt = Counter({w: k for w, k in cnt.items() if kor.match(w)})
        words = list(cnt)
        rng.shuffle(words)
        return set(S), set(), set(E), set(), Counter({w: cnt[w] for w in words})

    def wide_eomi(c):
        eomi(c, wide if c.index % 4 == 0 else many)

    def wide_stem(c):
        stem(c, wide)

    def kind(c):
        pipeline(c, kinds)

    def pipeline(c, corpus=corpus):
        """the predicates found with what was learned"""
        rng = c.rng
        S, new, E, nouns, cnt = corpus(rng)
        cnt = Counter({w: k for w, k in cnt.items() if len(w) <= 15})
        V, A = set(rng.sample(sorted(S), len(S) // 2)), set()
        A = S - V
        ee, es = rng.choice(((True, True), (True, False), (False, True)))
        mef = rng.choice((1, 1, 2))
        tk = dict(min_num_of_features=rng.choice((1, 2)), min_eomi_score=rng.choice((.3, .7)), min_eomi_frequency=rng.choice((1, 5)),
                  min_num_of_unique_R_char=rng.choice((1, 2)), min_entropy_of_R_char=rng.choice((0, .5)), min_stem_score=rng.choice((.3, .7)),
                  min_stem_frequency=rng.choice((1, 5)))
        josas = {'은', '는', '이', '을', '에서'}
        c.note(counts=cnt, verbs=sorted(V), adjectives=sorted(A), eomis=sorted(E), nouns=sorted(nouns), learn_endings=ee, learn_stems=es, min_eojeol_frequency=mef, thresholds=tk)
        with contextlib.redirect_stdout(io.StringIO()):
            x = PredicatorExtractor(set(nouns), set(josas), set(A), set(V), set(E), extract_eomi=ee, extract_stem=es, ensure_normalized=True)
            adjs, verbs = x.train_extract([' '.join([w] * k) for w, k in cnt.items()], mef, **tk)
        cnt = {w: k for w, k in cnt.items() if k >= mef}
        N = bare_nouns(nouns, S)
        base = {w: k for w, k in cnt.items() if len(w) > 1 and not any(w[:i] in N for i in range(2, len(w) + 1))}
        base = {w: k for w, k in base.items() if len(w) <= 19}
        E2, S2 = set(E), set(S)
        if ee:
            lo, hi = endings(base, S, N, tk['min_num_of_features'], tk['min_eomi_score'], tk['min_eomi_frequency'])
            if set(lo) != set(hi):
                return
            E2 |= set(lo)
        if es:
            S2 |= set(learned_stems(base, S, E2, tk['min_num_of_unique_R_char'], tk['min_entropy_of_R_char'], tk['min_stem_score'], tk['min_stem_frequency'])[0])
        m.seen('pipeline_ending', len(E2 - E))
        m.seen('pipeline_stem', len(S2 - S))
        m.seen('pipeline_both', len(S2 - S) and len(E2 - E))
        want, _ = predicates([w for w in cnt if kor.match(w)], S2, E2, N, josas)
        for w in want:
            for s, _ in want[w]:
                if s not in S:
                    m.seen('kind_%s_%s' % ('suffix' if s[-1] in '같답롭이' or s[-2:] in SUFFIX else 'forms', 'verb' if is_verb(s, want, V, A) else 'adjective'))
        for tag, got in (('Adjective', adjs), ('Verb', verbs)):
            must = {w: {y for y in want[w] if is_verb(y[0], want, V, A) == (tag == 'Verb')} for w in want}
            m.eq({w: (q.frequency, sorted(q.lemma)) for w, q in got.items()}, {w: (cnt[w], sorted(y)) for w, y in must.items() if y}, 'predicates-with-learned-parts', tag=tag)
        if E2 - E or S2 - S:
            m.nontrivial('p', cnt, sorted(S), sorted(E))
    m.each('eomi', m.n(200, 6000), eomi)
    m.each('stem', m.n(200, 6000), stem)
    m.each('pipeline', m.n(120, 4000), pipeline)
    m.each('kind', m.n(60, 2000), kind)
    m.each('wide-eomi', m.n(9, 60), wide_eomi)
    m.each('wide-stem', m.n(4, 60), wide_stem)
