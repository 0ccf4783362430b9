# -*- coding: utf-8 -*-
"""Corpora and ground truth shared by the noun / POS extractor checks."""
import os
from collections import Counter
from mon import text
from mon.core import REPO


def _read(name):
    with open(os.path.join(REPO, 'soynlp', name), encoding='utf-8') as f:
        return {l.strip() for l in f if l.strip()}


class Truth:
    """feature tables read straight from the shipped model files, or given"""

    def __init__(self, pos=None, neg=None):
        if pos is None:
            pos, neg = _read('trained_models/noun_predictor_ver2_pos'), _read('trained_models/noun_predictor_ver2_neg')
        self.common = pos & neg
        self.pos, self.neg = pos - self.common, neg - self.common
        other = _read('noun/frequent_enrolled_josa.txt') | _read('noun/frequent_noun_suffix.txt')
        used = {ch for w in pos | neg | other for ch in w}
        # syllables that occur in no ending at all: nouns built from them cannot be confused with noun + ending
        self.free = [chr(c) for c in range(0xAC00, 0xD7A4, 7) if chr(c) not in used]
        self.pos_l, self.neg_l, self.common_l = (sorted(w for w in s if len(w) <= 4) for s in (self.pos, self.neg, self.common))


def real_corpus(rng, n):
    """noun+josa sentences with predicates, compounds, bare nouns, numbers"""
    nouns = rng.sample(text.NOUNS, rng.choice((3, 8, 20)))
    if rng.random() < .3:
        nouns += rng.sample(('LG', 'SK', '3D', 'K팝', '4대강', 'e스포츠', '2차', 'TV'), 3)
    josa = rng.sample(text.JOSA, rng.choice((2, 5, 15)))
    verbs = rng.sample(text.VERBS, 6)
    out = []
    for _ in range(n):
        ws = []
        for _ in range(rng.randrange(0, 7)):
            x = rng.random()
            if x < .5:
                ws.append(rng.choice(nouns) + rng.choice(josa))
            elif x < .62:
                ws.append(rng.choice(nouns))
            elif x < .8:
                ws.append(''.join(rng.choice(nouns) for _ in range(rng.choice((2, 2, 3)))) + rng.choice(josa + ['', '']))
            elif x < .93:
                ws.append(rng.choice(verbs) + rng.choice(text.ENDS))
            else:
                ws.append(rng.choice(('2010년', '3월', 'IBM이', '가', '이', '...', '(주)한국', '롯데.', text.eojeol(rng))))
        out.append(' '.join(ws))
    return out


def tiny_corpus(rng, n):
    """words over the endings' own alphabet: every kind of ambiguity between noun and ending"""
    ab = rng.choice(('은는이가을를의에서', '나라가는에게서로', '하다는고었지만니까', '아이는은가의를'))
    return [' '.join(''.join(rng.choice(ab) for _ in range(rng.choice((1, 2, 2, 3, 4, 6)))) for _ in range(rng.randrange(0, 8)))
            for _ in range(n)]


def eojeols(sents, pre=lambda s: s):
    return Counter(w for s in sents for w in pre(s).split())


def begins(counter):
    out = Counter()
    for w, k in counter.items():
        for e in range(1, len(w) + 1):
            out[w[:e]] += k
    return out


def prefix_free(rng, pool, k, taken=()):
    """k endings no two of which begin alike"""
    got = list(taken)
    for _ in range(k * 4):
        w = rng.choice(pool)
        if not any(w[0] == g[0] for g in got):
            got.append(w)
        if len(got) - len(taken) >= k:
            break
    return got[len(taken):]


JOSASET, SUFFIXSET = _read('noun/frequent_enrolled_josa.txt'), _read('noun/frequent_noun_suffix.txt')


def v2_follow(cnt, L, R):
    follow = {}
    for w in cnt:
        for i in range(1, min(len(w), L) + 1):
            if len(w) - i <= R:
                follow.setdefault(w[:i], []).append(w)
    return follow


def v2_candidates(follow, pos):
    return [l for l, ws in follow.items() if any(w[len(l):] in pos for w in ws)]


def v2_predict(cnt, T, follow, cands, ms=.3, features=1, frequent=30, routes=None):
    """longest first; a noun takes the words it begins away from the shorter candidates -> {candidate: (support, score)}"""
    live = dict(cnt)
    routes = Counter() if routes is None else routes

    def longer(word, r, table):
        return any(word[e:] + r in table for e in range(len(word)))

    pred = {}
    for l in sorted(cands, key=lambda x: -len(x)):
        ws = [w for w in follow[l] if w in live]
        pos = neg = com = unk = end = kinds = 0
        firsts = set()
        for w in ws:
            r, k = w[len(l):], live[w]
            if not r:
                end += k
                continue
            lp, ln = longer(l, r, T.pos), longer(l, r, T.neg)
            if r in T.pos or r in T.common:
                if not lp:
                    firsts.add(r[0])
            else:
                firsts.add(r[0])
            kinds += (r in T.pos and not lp) or (r in T.neg and not ln)
            if lp or ln:
                continue
            if r in T.common:
                com += k
            elif r in T.pos:
                pos += k
            elif r in T.neg:
                neg += k
            else:
                unk += k
        ratio = (pos - neg) / (pos + neg) if pos + neg else 0
        support = (pos if ratio >= ms else neg) + end + com
        total = pos + neg + com + unk + end
        if kinds > features:
            got, route = (support, ratio), 'several endings'
        elif not total:
            got, route = (support, 0), 'nothing left'
        elif end > frequent and pos >= neg:
            got, route = (support, ratio), 'frequent word'
        elif (com or pos) and end / total >= .3 and com >= neg or len(firsts) >= 2:
            got = (pos + com + end, (pos + com + end) / total)
            route = 'different beginnings' if not ((com or pos) and end / total >= .3 and com >= neg) else 'often alone'
        else:
            got, route = (support, 0), 'one ending'
        routes[route] += 1
        pred[l] = got
        if got[1] >= ms:
            for w in ws:
                del live[w]
    return pred


def v2_covered(cnt, T, follow, nouns):
    """the words begun by a noun that some positive ending follows (a one-syllable noun: alone or with a known ending)"""
    out = set()
    for l in v2_candidates(follow, T.pos):
        if l in nouns:
            out |= {w for w in follow[l] if len(l) > 1 or w == l or w[1:] in T.pos or w[1:] in T.common}
    return out


def v2_reference(cnt, T, L=10, R=9, ms=.3, mf=1, features=1, frequent=30, compound=True,
                 post=('detaching_features', 'ignore_features', 'ignore_NJ'), cands=None):
    """the version 2 extraction on word counts alone -> {noun: (frequency, score)}, the routes its candidates took"""
    from checks.c09 import greedy
    routes = Counter()
    follow = v2_follow(cnt, L, R)
    pred = v2_predict(cnt, T, follow, v2_candidates(follow, T.pos) if cands is None else cands, ms, features, frequent, routes)
    nouns = {l: s for l, s in pred.items() if s[1] >= ms}
    if compound:
        table = {l: len(l) for l, s in pred.items() if s[1] > ms and len(l) > 1}
        got = {}
        for l in follow:
            if len(l) < 4 or l in table:
                continue
            toks = greedy(l, table, 10, 0)
            names = [t[0] for t in toks]
            if any(t[3] <= 0 for t in toks[:-1]):
                continue
            if len(toks) >= 3 and names[-1] in T.pos:
                names = names[:-1]
            elif toks[-1][3] <= 0:
                continue
            x = ''.join(names)
            f, s = got.get(x, (0, 0))
            got[x] = f + cnt.get(l, 0), max([s] + [pred.get(t, (0, 0))[1] for t in names])
            routes['compound'] += 1
        nouns.update(got)
    nouns = {l: s for l, s in nouns.items() if s[0] >= mf}
    for step in post:
        if step == 'detaching_features':
            drop = {w for w in nouns if any(w[:e] in nouns and w[e:] in T.pos for e in range(2, len(w) - 1))}
        elif step == 'ignore_features':
            drop = {w for w in nouns if w in T.pos or w in T.common}
        elif step == 'ignore_NJ':
            drop = set()
            for w in nouns:
                for i in range(2, len(w)):
                    l, r = w[:i], w[i:]
                    if r in JOSASET and r not in SUFFIXSET and l in nouns and nouns[w][0] < nouns[l][0] and \
                            sum(x[len(l):] in JOSASET for x in follow.get(l, ())) >= 5:
                        drop.add(w)
        else:
            drop = set()
        routes[step] += len(drop)
        nouns = {w: s for w, s in nouns.items() if w not in drop}
    return nouns, routes


def disguise(rng, sents, more=(), longer=.4):
    """the same corpus with some of its characters exchanged: merged with another one (doubled syllables, words that read the same
    backwards) or replaced by a Latin letter, digit, sign, lone letter or a character outside the BMP; in some, a few characters that
    begin words are replaced by several syllables, so that words grow up to and beyond the length limits.
    -> (corpus, and each of `more` renamed in the same way)"""
    have = sorted({ch for s in sents for ch in s if not ch.isspace()})
    if not have:
        return sents, more
    table = {}
    for ch in rng.sample(have, min(len(have), rng.choice((1, 2, 4, 8, 20)))):
        table[ord(ch)] = rng.choice(have) if rng.random() < .5 else rng.choice('aZ07ㅋㅏé漢-.(\U0001F600')
    if rng.random() < longer:
        heads = Counter(w[0] for s in sents for w in s.split())
        if rng.random() < .7:
            table = {}
        for ch in rng.choices(list(heads), list(heads.values()), k=rng.choice((1, 2, 4))):
            table[ord(ch)] = ch + ''.join(chr(rng.randrange(0xAC00, 0xD7A4)) for _ in range(rng.choice((2, 4, 6, 7, 8, 9, 12, 15))))
    return [s.translate(table) for s in sents], [type(x)(w.translate(table) for w in x) for x in more]
