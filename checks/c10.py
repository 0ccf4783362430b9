# -*- coding: utf-8 -*-
"""C10: MaxLRScoreTokenizer."""
from mon import text
from checks.c09 import greedy

RULE = '''random left/right dictionaries (sets or scores, overlapping each other, one-character entries), preferences and thresholds;
sentences concatenate dictionary words, unknown material before / between / after them and hostile characters. Oracle: text
conservation, offset consistency, dictionary membership; `exact`: words built as L+R with no other dictionary word inside; `choice`: the whole
analysis recomputed, ties and leftovers included.
Non-trivial: a word with an R token or three or more tokens; keyed by (word, dictionaries).'''


def run(m):
    from soynlp.tokenizer import MaxLRScoreTokenizer
    m.require('R', 'two_part', 'unknown_tail', 'unknown_head', 'leftover_right', 'exact', 'preference')

    def table(rng, words):
        words = [w for w in words if w]
        form = rng.randrange(4)
        if form == 0:
            return set(words)
        if form == 1:
            return list(words)
        return {w: rng.choice((.1, .3, .5, .8, 1.0, 1.0)) for w in words}

    def check(m, tok, sent, L, R, c):
        det = tok.tokenize(sent, debug=True, flatten=False)
        words = sent.split()
        m.eq(len(det), len(words), 'word-count')
        for w, recs in zip(words, det):
            at, ok = 0, True
            for rec in recs:
                l, r, p0, p1, p2 = rec[:5]
                ok = ok and (l or r) and p0 == at and w[p0:p1] == l and w[p1:p2] == r
                ok = ok and p1 == p0 + len(l) and p2 == p1 + len(r)
                at = p2
                if r:
                    m.seen('R')
                    m.expect(r in R, 'right-part-unknown', word=w, part=r, detail=[x[:5] for x in recs])
                if l and r:
                    m.seen('two_part')
                    m.expect(l in L, 'left-part-unknown', word=w, part=l)
                if r and not l:
                    m.seen('leftover_right')
            m.expect(ok and at == len(w), 'offsets', word=w, detail=[x[:5] for x in recs])
            if recs and recs[-1][0] and recs[-1][0] not in L:
                m.seen('unknown_tail')
            if recs and recs[0][0] and recs[0][0] not in L:
                m.seen('unknown_head')
            if len(recs) > 2 or any(x[1] for x in recs):
                m.nontrivial(w, sorted(L), sorted(R))
        flat = [x for part in tok.tokenize(sent, flatten=False) for x in part]
        want = [p for recs in det for rec in recs for p in ((rec[0], 'L'), (rec[1], 'R')) if p[0]]
        m.eq([tuple(x) for x in flat], want, 'tagged-form')
        m.eq([tuple(x) for x in tok.tokenize(sent)], want, 'flat-form')
        m.eq(''.join(x[0] for x in tok.tokenize(sent)), ''.join(words), 'conservation')

    def body(c):
        rng = c.rng
        al = rng.choice(('가나', '가나다라', '가나다라마바사아'))
        mk = (lambda k=4: text.small_words(rng, al, k)) if rng.random() < .7 else (lambda k=4: rng.choice(text.NOUNS + text.JOSA))
        lw, rw = [mk() for _ in range(rng.randrange(0, 7))], [mk(3) for _ in range(rng.randrange(0, 6))]
        Dl, Dr = table(rng, lw), table(rng, rw)
        Pl = {w: rng.choice((.1, .5, 2.0)) for w in lw + [mk()] if rng.random() < .25}
        Pr = {w: rng.choice((.1, .5, 2.0)) for w in rw + [mk(2)] if rng.random() < .25}
        if Pl or Pr:
            m.seen('preference')
        pool = lw + rw + list(Pl) + list(Pr)
        words = []
        for _ in range(rng.randrange(0, 5)):
            parts = []
            for _ in range(rng.randrange(1, 5)):
                parts.append(rng.choice(pool) if pool and rng.random() < .6 else
                             rng.choice((text.small_words(rng, al, 3), text.small_words(rng, '하허호', 3), text.char(rng, 'sjad'))))
            words.append(''.join(parts))
        sent = rng.choice((' ', '  ', '\t')).join(words)
        kw = {}
        if rng.random() < .4:
            kw = dict(max_lscore_difference=rng.choice((0, .3, 1)), max_lscore_diffratio=rng.choice((.2, .5, 1)),
                      ensurable_score_l=rng.choice((0, .5, 2)), ensurable_score_lr_diff=rng.choice((0, .3, 2)))
        c.note(sentence=sent, Dl=Dl, Dr=Dr, Pl=Pl, Pr=Pr, options=kw)
        f = (repr(Dl), repr(Dr), dict(Pl), dict(Pr))
        tok = MaxLRScoreTokenizer(Dl=Dl, Dr=Dr, preference_l=Pl, preference_r=Pr, **kw)
        check(m, tok, sent, set(Dl) | set(Pl), set(Dr) | set(Pr), c)
        m.eq((repr(Dl), repr(Dr), dict(Pl), dict(Pr)), f, 'arguments-modified')
        # same tokenizer, second sentence: no carry-over
        check(m, tok, ' '.join(reversed(sent.split())), set(Dl) | set(Pl), set(Dr) | set(Pr), c)
    m.each('sentences', m.n(2000, 40000), body)

    def exact(c):
        """L+R words with nothing else from the dictionaries inside"""
        rng = c.rng
        lw = list({text.small_words(rng, '가나다라마', 4) for _ in range(rng.randrange(1, 6))})
        rw = list({text.small_words(rng, '바사아자', 3) for _ in range(rng.randrange(1, 6))})
        Dl, Dr = table(rng, lw), table(rng, rw)
        tok = MaxLRScoreTokenizer(Dl=Dl, Dr=Dr)
        l, r = rng.choice(lw), rng.choice(rw)
        w = l + r
        inside = [w[i:j] for i in range(len(w)) for j in range(i + 1, len(w) + 1) if (i, j) not in ((0, len(l)), (len(l), len(w)))]
        if any(x in lw or x in rw for x in inside):
            return
        c.note(word=w, Dl=Dl, Dr=Dr)
        m.seen('exact')
        m.nontrivial('exact', w, sorted(lw), sorted(rw))
        m.eq([tuple(x) for x in tok.tokenize(w)], [(l, 'L'), (r, 'R')], 'exact-l-r')
    m.each('exact', m.n(1500, 20000), exact)

    def choose(word, Dl, Dr, Pl, Pr, diff, ratio, ens_l, ens_d):
        """the analyses in the order in which they are preferred -> [(begin, middle, end)] chosen, and how many each rule dropped"""
        n, cands = len(word), []
        for b in range(n):
            for e in range(b + 1, n + 1):
                if word[b:e] in Dl:
                    cands += [(b, e, f) for f in range(e, n + 1) if (f > e and word[e:f] in Dr) or (f == e and e - b > 1)]
        sl = {x: Dl[word[x[0]:x[1]]] for x in cands}
        sr = {x: Dr[word[x[1]:x[2]]] if x[2] > x[1] else Dr.get('', 0) for x in cands}
        cands.sort(key=lambda x: (-sl[x], x[2], x[0], x[1]))

        def covered(i):   # inside a longer left word that is almost as good
            b, e, _ = cands[i]
            s = sl[cands[i]]
            for y in cands[i + 1:]:
                t = sl[y]
                if y[0] <= b and e <= y[1] and y[:2] != (b, e) and (s - t < diff or (ens_l * .5 < s and (s + 1e-5) / (t + 1e-5) < ratio)):
                    return True
        kept = [x for i, x in enumerate(cands) if not covered(i)]

        def clash(x):  # the right part runs into a left word that is sure enough
            for y in kept:
                if x[1] <= y[0] < x[2] and (sl[y] >= ens_l or sl[y] + Pl.get(word[y[0]:y[1]], 0) - sr[x] > ens_d):
                    return True
        order = sorted(kept, key=lambda x: (-sl[x], -sr[x], x[0], x[0] - x[1]))
        scored = [x for x in order if x[1] == x[2] or not clash(x)]
        total = {x: (sl[x] + sr[x] if x[2] > x[1] else 2 * sl[x]) + Pl.get(word[x[0]:x[1]], 0) + Pr.get(word[x[1]:x[2]], 0) for x in scored}
        best = []
        for x in sorted(scored, key=lambda x: -total[x]):
            if all(x[2] <= y[0] or y[2] <= x[0] for y in best):
                best.append(x)
        return sorted(best), len(cands) - len(kept), len(kept) - len(scored)

    def analysis(word, best, Dr):
        """the chosen parts, and what is left over cut by the max-score rule over the right words"""
        out, at = [], 0
        for b, e, f in best + [(len(word),) * 3]:
            if at < b:
                for t, x, y, _, _ in greedy(word[at:b], Dr, 10, 0.0):
                    out.append(('', t) if t in Dr else (t, ''))
            if b < f:
                out.append((word[b:e], word[e:f]))
            at = f
        return out

    def choice(c):
        """the analysis is determined by the scores, and by the order of preference among equal ones"""
        rng = c.rng
        al = rng.choice(('가나', '가나다', '가나다라마'))
        dyadic = (.25, .5, .75, 1.0, 1.0, 2.0)
        num = rng.choice((lambda: rng.choice((1, 1, 2)) * rng.random(), lambda: rng.choice(dyadic), lambda: 1.0,
                          lambda: rng.choice((.5, .5009765625, .501953125, 1.0, 1.0009765625)), lambda: rng.choice((0, 0, .25, .5, -.25, 1.0))))
        far = rng.random() < .06
        wl, wr = rng.choice(((14, 12), (40, 30))) if far else (4, 3)
        Dl = {text.small_words(rng, al, wl): num() for _ in range(rng.randrange(1, 9))}
        Dr = {text.small_words(rng, al, wr): num() for _ in range(rng.randrange(0, 6))}
        Pl = {w: num() for w in Dl if rng.random() < .2}
        Pr = {w: num() for w in Dr if rng.random() < .2}
        extra = {}, {}
        for P, D, x in ((Pl, Dl, extra[0]), (Pr, Dr, extra[1])):
            w = text.small_words(rng, al, 3)
            if rng.random() < .25 and w not in D:   # a preference word outside the dictionary scores 1.0
                P[w] = num()
                x[w] = 1.0
                m.seen('preference_only')
        opt = (.3, .5, .5, .3)
        own = rng.random() < .5
        if own:
            opt = (rng.choice((0, .125, .25, .5, 1)), rng.choice((.2, .5, 1, 1.5)), rng.choice((0, .25, .5, .75, 1, 2)), rng.choice((0, .25, .5, 1)))
        n = rng.randrange(1, 6) if rng.random() < .97 else rng.choice((12, 30, 120))
        word = ''.join(rng.choice(sorted({**Dl, **Pl}) + sorted({**Dr, **Pr}) + [rng.choice(al), '하']) for _ in range(n))
        m.seen('long_word', len(word) > 40)
        m.seen('long_part', far and any(len(x) > 10 and x in word for x in Dl))
        c.note(word=word, Dl=Dl, Dr=Dr, Pl=Pl, Pr=Pr, options=opt)
        kw = dict(zip(('max_lscore_difference', 'max_lscore_diffratio', 'ensurable_score_l', 'ensurable_score_lr_diff'), opt)) if own else {}
        gl, gr = dict(Dl), dict(Dr)
        if len(set(Dl.values())) == 1 and Dl[next(iter(Dl))] == 1.0 and rng.random() < .5:
            gl = rng.choice((set, list, tuple))(gl)
        if rng.random() < .2:      # part of the dictionaries comes from the builder; the caller's entries win
            some = {w: s for w, s in Dl.items() if rng.random() < .5}, {w: s for w, s in Dr.items() if rng.random() < .5}
            built = ({**some[0], **{w: 9.0 for w in Dl if w not in some[0]}} if isinstance(gl, dict) else some[0]), {**some[1], **{w: 9.0 for w in Dr if w not in some[1]}}
            graph = {'가': {'는': 3, '': 1}} if rng.random() < .5 else None
            kw.update(tokenizer_builder=lambda g: built, lrgraph=graph)
            m.seen('builder')
        tok = MaxLRScoreTokenizer(Dl=gl, Dr=gr, preference_l=Pl, preference_r=Pr, **kw)
        Dl, Dr = {**Dl, **extra[0]}, {**Dr, **extra[1]}
        best, sub, clash = choose(word, Dl, Dr, Pl, Pr, *opt)
        m.seen('subset_dropped', sub)
        m.seen('overlap_dropped', clash)
        m.seen('several', len(best) > 1)
        m.seen('worthless_entry', any(s <= 0 and w in word for D in (Dl, Dr, Pl, Pr) for w, s in D.items()))
        m.seen('near_equal', len({s for s in Dl.values() if .5 <= s < .51}) > 1)
        m.nontrivial('choice', word, sorted(Dl.items()), sorted(Dr.items()), opt)
        want = analysis(word, best, Dr)
        m.eq([tuple(x[:2]) for x in tok.tokenize(word, debug=True, flatten=False)[0]], want, 'best-analysis', word=word)
        m.eq([tuple(x) for x in tok(word, debug=False)], [p for l, r in want for p in ((l, 'L'), (r, 'R')) if p[0]], 'best-analysis-tags', word=word)
    m.require('subset_dropped', 'overlap_dropped', 'preference_only', 'several', 'long_word', 'long_part', 'builder', 'worthless_entry', 'near_equal')
    m.each('choice', m.n(3500, 50000), choice)
