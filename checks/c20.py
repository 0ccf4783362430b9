# -*- coding: utf-8 -*-
"""C20: LRNounExtractor (version 1) and NewsNounExtractor against corpus recounts."""
import os
import shutil
import tempfile
from collections import Counter
from mon import text
from mon.canon import spoil
from mon.core import REPO
from checks.nounlib import disguise, real_corpus, tiny_corpus, eojeols, begins

RULE = '''random corpora (Korean noun+josa/predicate/compound text, alphabets of the endings, hostile text) x left/right limits x minima x
candidate lists x predictor files; scores recomputed from the predictor table and a recount of the corpus, frequencies bounded by recounts, repetition,
sentence order, retraining and reuse of one extractor compared; planted corpora with unambiguous nouns for completeness. Non-trivial:
some but not all frequent prefixes returned; keyed by (corpus, configuration).'''


def coefs():
    out = {}
    with open(os.path.join(REPO, 'soynlp', 'trained_models', 'noun_predictor_sejong'), encoding='utf-8') as f:
        for line in f:
            r, s = line.strip().split('\t')
            out[r] = max(out.get(r, -9e9), float(s))
    return out


NEWS_RULES = ('subword of noun+particle', 'prefix of a noun', 'noun+beginning of a verb', 'few particles', 'suffix', 'takes 하다', 'kept', 'compound')
PASS = set("""과 는 되고 되는 되다 된다 들 들에 들의 들이 로 로는 로도 로서 를 부터 뿐 뿐만 뿐이 뿐인 에게 에도 에서 에와 와 으로 으로의 은 의 이 이나 이라
이었 인 임 처럼 하다 한 할 했던 했고 했다""".split())


class News:
    """the rules of the news noun extractor over plain counts (its verb dictionary is not shipped, so rules using it never apply)"""
    def __init__(self, K, words, L, R, base, seen=lambda r: None, key=None):
        self.key = key
        self.K, self.base, self.seen, self.cnt = K, set(base), seen, dict(words)
        self.josa = {r for r, s in K.items() if s > .1} | {'는'}
        self.g = {}
        for w, k in self.cnt.items():
            for e in range(1, min(L, len(w)) + 1):
                if len(w) - e <= R:
                    self.g.setdefault(w[:e], {})[w[e:]] = k
        self.n = {l: sum(d.values()) for l, d in self.g.items()}

    def predict(self, l):
        K, rd = self.K, self.g.get(l, {})
        tot = sum(rd.values())
        known = {r: k for r, k in rd.items() if r in K}
        norm = sum(known.values())
        sc = sum(k * K[r] for r, k in known.items()) / norm if norm else 0
        ne = self.cnt.get(l, 0)
        npos = sum(K[r] > 0 for r in known)
        return (sc, tot, norm / (tot - ne) if tot - ne > 0 else 0, ne / tot if tot else 0, npos, npos / len(known) if known else 0)

    def freq(self, l):
        return self.n.get(l, 0)

    def nouny(self, w):
        return w in self.S or w in self.D

    def compound(self, w):
        n = len(w)
        if n < 4:
            return False
        if any(self.nouny(w[:e]) and self.nouny(w[e:]) for e in range(2, n)):
            return True
        return any(self.nouny(w[:a]) and self.nouny(w[a:b]) and self.nouny(w[b:]) for a in range(2, n - 3) for b in range(a + 2, n - 1))

    def near_sure_prefix(self, l):
        e = [e for e in range(2, len(l)) if l[:e] in self.D or self.predict(l[:e])[0] > .4]
        if not e or not self.freq(l[:max(e)]) or self.freq(l) / self.freq(l[:max(e)]) > .7:
            return False
        hit = sum(c for r, c in self.g[l].items() if any((l + r)[x:] in self.josa for x in e))
        return hit / self.freq(l) > .8

    def noun_and_josa(self, w):
        return any(self.nouny(w[:e]) and (e == len(w) or self.K.get(w[e:], 0) > 0) for e in range(2, len(w) + 1))

    def verb_start(self, l):
        def alone(w):
            return self.freq(w) and min(1, self.cnt.get(w, 0) / self.freq(w)) > .7
        for b in (1,) if len(l) <= 3 else (1, 2):
            if l[:-b] in self.S and l[:-b] in self.D and sum(c for r, c in self.g[l].items() if alone(l[-b:] + r)) / self.freq(l) > .7:
                return True
        return False

    def rare_extension(self, l):
        for b in (1,) if len(l) <= 3 else (1, 2):
            p = l[:-b]
            if self.nouny(p) and (self.freq(l) / self.freq(p) if self.freq(p) else 0) < .1:
                return True
        return False

    def few_particles(self, l):
        """True when the word fails the rule"""
        if l not in self.S or self.S[l][1] > 10 or self.S[l][4] > 1:
            return False
        ends = {r: c for r, c in self.g[l].items() if r}
        ok = sum(c for r, c in ends.items() if r[:2] in PASS or self.noun_and_josa(r))
        return not ends or ok / sum(ends.values()) <= .5

    def bad_suffix(self, l, kept):
        def share(*rs):
            return sum(self.g.get(l, {}).get(r, 0) for r in rs) / self.freq(l) if self.freq(l) else 0
        if l[-2:] in ('갔다', '이는', '겠지', '보는'):
            return True
        if l[-1] == '으' and share('로', '로써', '로만', '로의') > .5 or l[-1] == '지' and share('만') > .5 \
                or l[-1] == '없' and share('는', '이', '다', '었다') > .5:
            return True
        if l[-1] in '인은의와과' or l[-2:] in ('들이', '들은', '들도', '들을'):
            if not self.freq(l[:-1]) or self.freq(l) / self.freq(l[:-1]) < .8:
                return True
        return l[-2:] == '으로' and (len(l) == 3 or l[:-2] in self.D or l[:-2] in kept)

    def takes_hada(self, l):
        if l[-1] != '당' and self.nouny(l[:-1]):
            return False
        h = sum(c for r, c in self.g.get(l, {}).items() if r and ('하' <= r[0] <= '힣' or r[0] == 'ㅎ'))
        return h / self.freq(l) >= .5 if self.freq(l) else False

    def nouns(self, mf, ms, cand):
        seen, self.D, self.S = self.seen, set(self.base), {}
        order = (lambda ws: list(ws)) if self.key is None else (lambda ws: sorted(ws, key=self.key))
        for l in order(cand or self.g):
            if len(l) > 1 and self.freq(l) >= max(mf, 1) and l not in self.K and self.predict(l)[0] > ms:
                self.S[l] = self.predict(l)
        sub = {l for l in self.S if self.near_sure_prefix(l)}
        pre = {l[:e] for l in self.S if l not in sub for e in range(2, len(l)) if l[e:] in self.josa
               and self.predict(l[:e])[0] > .7 and self.freq(l[:e]) / self.freq(l) > .7}
        ver = {l for l in self.S if self.verb_start(l) and self.rare_extension(l) and not self.compound(l)}
        kept = {}
        for l, s in self.S.items():
            why = ('subword of noun+particle' if l in sub else 'prefix of a noun' if l in pre else 'noun+beginning of a verb' if l in ver else
                   'few particles' if self.few_particles(l) and not self.compound(l) else
                   'suffix' if self.bad_suffix(l, kept) else 'takes 하다' if self.takes_hada(l) else 'kept')
            seen('news: ' + why)
            if why == 'kept':
                kept[l] = s
        for l in order(self.g):
            if self.freq(l) >= mf and self.cnt.get(l, 0) / self.freq(l) >= .99 and l not in kept \
                    and not self.near_sure_prefix(l) and not self.noun_and_josa(l) and not self.bad_suffix(l, kept) and self.compound(l):
                self.D.add(l)
                seen('news: compound')
        return {l: kept.get(l) or self.predict(l) for l in set(kept) | self.D}


def run(m):
    scratch = tempfile.mkdtemp(prefix='verif_c20_')
    try:
        go(m, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def go(m, scratch):
    from soynlp.noun import LRNounExtractor, NewsNounExtractor
    from soynlp.normalizer import normalize_sent_for_lrgraph
    sejong = coefs()
    K = sejong
    used = {ch for r in K for ch in r}
    free = [chr(c) for c in range(0xAC00, 0xD7A4, 7) if chr(c) not in used]
    strong = sorted(r for r, s in K.items() if s >= .999 and len(r) <= 4)
    m.require('renamed_characters', 'v1_noun', 'v1_planted', 'v1_min_frequency', 'v1_candidates', 'news_noun', 'news_planted', 'news_base', 'news_second_corpus',
              'v1_covered_by_longer', 'news_compound', 'predictor_files', 'exact_scores', 'v1_exact_tie', 'v1_asked_scored', 'v1_asked_compound', 'v1_asked_ending', 'v1_defaults', 'v1_noun_plus_ending', *('news: ' + r for r in NEWS_RULES))

    def same(a, b, mech, **w):
        """equal up to the rounding of sums taken in another order"""
        m.eq(sorted(a), sorted(b), mech, **w)
        for x in set(a) & set(b):
            m.expect(all(abs(p - q) < 1e-9 for p, q in zip(a[x], b[x])), mech, noun=x, got=a[x], want=b[x], **w)

    plus = sorted(r for r, s in K.items() if s > .5 and len(r) <= 3)

    def layered(rng, nouns=None):
        """nouns with particles, particles with further endings, nouns with the beginning of a word that also stands alone"""
        words = []
        for N in nouns or rng.sample(text.NOUNS, 3):
            J = rng.sample(plus, 5)
            for j in J:
                words += [N + j] * rng.choice((1, 4, 9))
            words += [N] * rng.choice((0, 3, 30))
            if rng.random() < .7:
                j = rng.choice(J)
                for x in rng.sample([x for x in plus if not any(j[i:] + x in K for i in range(len(j)))], rng.randrange(1, 4)):
                    words += [N + j + x] * rng.choice((1, 2, 5))
            if rng.random() < .7:
                v = rng.choice('당시되만별')
                for x in rng.sample(plus, rng.randrange(1, 4)):
                    words += [N + v + x] * rng.choice((1, 1, 2))
                    words += [v + x] * rng.choice((0, 3))
                    words += [v + x + '요'] * rng.choice((0, 0, 0, 3))
                words += [N + J[0]] * rng.choice((0, 40))
        rng.shuffle(words)
        return [' '.join(words[i:i + 5]) for i in range(0, len(words), 5)]

    tails = {'으': ['로', '로써', '로만', '로의', '면', '니'], '지': ['만', '도', '는'], '없': ['는', '이', '다', '었다', '고', '어'],
             '당': ['하다', '했다', '은', '이', '한'], '들': ['이', '은', '도', '을', '의']}
    some = ('들이', '들은', '들도', '들을', '인', '은', '의', '와', '과', '으로', '으', '지', '없', '당', '갔다', '겠지', '이는', '보는', '.', ',',
                        '들', '들이', '대', '장', '되')

    def ruled(rng, nouns=None):
        """words the hand-written rules are about, in proportions on and around their limits"""
        words = []
        Ns = nouns or rng.sample(text.NOUNS, 3) + [text.syllable(rng) + text.syllable(rng), text.syllable(rng)]
        for N in Ns:
            for j in rng.sample(plus, rng.choice((0, 1, 3, 4))):
                words += [N + j] * rng.choice((1, 3, 5, 9))
            for s in rng.sample(some, rng.choice((1, 2, 3))):
                ends = tails.get(s, plus)
                whole = rng.choice((5, 7, 8, 10, 20))
                for e in rng.sample(ends, min(len(ends), rng.randrange(2, 6))):
                    k = rng.randrange(1, whole + 1)
                    words += [N + s + e] * k
                    if rng.random() < .4:
                        words += [N + s[:-1] + rng.choice(plus)] * rng.randrange(0, 4)
                    if rng.random() < .3:
                        words += [s + e] * rng.choice((1, 5))
                words += [N + s] * rng.choice((0, 0, 2, 5, 60))
            words += [N] * rng.choice((0, 0, 4, 30))
        for _ in range(4):
            w = ''.join(rng.choice(Ns) for _ in range(rng.choice((2, 2, 3, 3, 4)))) + rng.choice(('', '', '', '당', '이', '은'))
            words += [w] * rng.choice((1, 3, 6, 12))
            for j in rng.sample(plus, rng.choice((0, 0, 2))):
                words += [w + j] * rng.choice((1, 2))
        rng.shuffle(words)
        return [' '.join(words[i:i + 7]) for i in range(0, len(words), 7)]

    def corpus(rng):
        n = rng.choice((2, 10, 40, 100))
        k = rng.random()
        if rng.random() < .35:
            return ruled(rng)
        if rng.random() < .1:
            # nouns as long as the limits
            words = []
            for _ in range(3):
                N = ''.join(text.syllable(rng) for _ in range(rng.choice((8, 9, 10, 11))))
                for j in rng.sample(plus, 3) + rng.sample([r for r in strong if len(r) > 3], 2):
                    words += [N + j] * rng.choice((1, 5, 9))
                words += [N] * rng.choice((0, 1, 9))
            rng.shuffle(words)
            m.seen('long_nouns')
            return [' '.join(words[i:i + 4]) for i in range(0, len(words), 4)]
        if k < .006:
            # a noun with hundreds of different right parts
            ends = rng.sample(sorted(r for r in sejong if len(r) < 4 and sejong[r] > .2), 260) + [text.syllable(rng) for _ in range(100)]
            words = [N + r for N in ('하늘', '바다') for r in ends for _ in range(rng.choice((5, 5, 7, 9)))]
            rng.shuffle(words)
            m.seen('hundreds')
            return [' '.join(words[i:i + 5]) for i in range(0, len(words), 5)]
        if k < .014:
            # more sentences, candidates and words than the progress output counts at once
            names = [text.syllable(rng) + text.syllable(rng) for _ in range(1100)]
            words = [N + j for N in names for j in rng.sample(text.JOSA, 2)] * 3
            rng.shuffle(words)
            m.seen('large')
            return [' '.join(words[i:i + 5]) for i in range(0, len(words), 5)]
        if k < .3:
            return layered(rng)
        if k < .7:
            return real_corpus(rng, n)
        if k < .85:
            return tiny_corpus(rng, n)
        return [text.hostile(rng) + ' ' + text.sentence(rng) for _ in range(min(n, 15))]

    levels = sorted({s for r, s in K.items() if .05 < s < .99 and len(r) < 3})

    def predictors(rng, kw, sents):
        """a table of scores in several files that share endings: the best score of an ending counts"""
        if rng.random() < .72:
            return sejong
        files, best, eighths = [], {}, rng.random() < .5       # sums of eighths are exact
        names = sorted(sejong)
        if rng.random() < .5:
            # endings that begin with the last syllables of words
            tails = [w[e:] + rng.choice(('', '는', '을')) for s in sents for w in s.split() for e in range(len(w) - 1)]
            extra = rng.sample(tails, min(len(tails), rng.choice((3, 20))))
            long = [w[rng.randrange(1, 4):] for s in sents for w in s.split() if 7 < len(w) < 20]
            extra += rng.sample(long, min(len(long), 3))
            m.seen('long_tail', any(len(x) > 6 for x in extra))
        else:
            extra = []
        for i in range(rng.choice((1, 2, 2, 3))):
            part = names if rng.random() < .3 else rng.sample(names, len(names) // rng.choice((2, 3, 30)))
            files.append(os.path.join(scratch, 'p%d' % i))
            with open(files[-1], 'w', encoding='utf-8') as f:
                for r in part + extra:
                    s = rng.choice((sejong.get(r, .7), sejong.get(r, .7), -.5, .0, .2, .99))
                    if eighths:
                        s = rng.choice((-1, -.5, .125, .25, .5, .5, 1))
                    f.write('%s\t%r\n' % (r, s))
                    best[r] = max(best.get(r, -9e9), s)
        kw['predictor_fnames'] = files
        m.seen('predictor_files', len(files) > 1)
        m.seen('exact_scores', eighths)
        return best

    def v1(c):
        rng = c.rng
        sents = corpus(rng)
        if rng.random() < .2:
            sents, _ = disguise(rng, sents)
            m.seen('renamed_characters')
        if rng.random() < .05:
            sents = [' '.join(sents)]       # a corpus of one long sentence
            m.seen('one_sentence')
        L, R, nf = rng.choice((10, 10, 4)), rng.choice((7, 7, 3)), rng.choice((1, 1, 1, 0, 2))
        kw = dict(verbose=rng.random() < .2)
        if (L, R, nf) != (10, 7, 1):
            kw.update(max_left_length=L, max_right_length=R, min_num_of_features=nf)
        if rng.random() < .3:
            kw['ensure_normalized'] = True
            sents = [' '.join(s.split()) for s in sents]
        K = predictors(rng, kw, sents)
        tf = rng.choice((1, 2, 5, 5))
        mf, ms = rng.choice((tf, tf, tf + 3, 1)), rng.choice((.1, .5, .5, .9, rng.choice(levels)))
        if K is not sejong and rng.random() < .7:
            ms = rng.choice((.5, .25, .125, .375))
        c.note(sentences=sents, config=kw, train_minimum=tf, min_noun_frequency=mf, min_noun_score=ms)
        pre = (lambda s: s) if kw.get('ensure_normalized') else normalize_sent_for_lrgraph
        cnt = eojeols(sents, pre)
        beg = begins(cnt)
        lset = Counter()
        rset = Counter()
        for w, k in cnt.items():
            for e in range(1, min(L, len(w)) + 1):
                lset[w[:e]] += k
            for e in range(1, min(R, len(w))):
                rset[w[-e:]] += k
        lset = {w for w, k in lset.items() if k >= tf}
        rset = {w for w, k in rset.items() if k >= tf}
        g = {}
        for w, k in cnt.items():
            for e in range(1, min(L, len(w)) + 1):
                if w[:e] in lset and (e == len(w) or w[e:] in rset):
                    g.setdefault(w[:e], {})[w[e:]] = k

        def score(w):
            feat = {r: k for r, k in g.get(w, {}).items() if r}
            if len(feat) <= nf:
                return None
            s = n = u = 0
            for r, k in feat.items():
                if r in K:
                    if not any(w[e:] + r in K for e in range(len(w))):
                        s += k * K[r]
                        n += k
                else:
                    u += k
            return (s / n if n else 0, n / (n + u) if n + u else 0)

        def reference(cand):
            nouns = {}
            for w in cand or lset:
                s = (score(w) or (0, 0)) if len(w) > 1 else None
                if s and s[0] >= ms:
                    nouns[w] = s

            def coh(w):
                return (beg[w] / beg[w[0]]) ** (1 / (len(w) - 1)) if len(w) > 1 and w in lset and w[0] in lset else 0
            kept = {}
            for w, s in nouns.items():
                if w[-1] in '.,':
                    continue
                if len(w) > 2 and coh(w) < coh(w[:-1]) and any(w[:e] in nouns and K.get(w[e:], 0) > ms for e in range(2, len(w))):
                    m.seen('v1_noun_plus_ending')
                    continue
                kept[w] = s
            # a word occurrence counts for the longest noun it splits into
            freq = Counter()
            for w, k in cnt.items():
                for e in range(len(w), 0, -1):
                    if w[:e] in kept and w[e:] in g.get(w[:e], {}):
                        freq[w[:e]] += k
                        break
            return {w: (freq[w],) + s for w, s in kept.items() if freq[w] >= mf}
        frozen = list(sents)
        ex = LRNounExtractor(**kw)
        ex.train(sents, tf) if tf != 5 else ex.train(sents)
        cand = None
        if rng.random() < .25:
            cand = rng.sample(sorted(lset), min(len(lset), 8)) + ['없는말', '하늘']
            m.seen('v1_candidates')
        args = dict(min_noun_score=ms, min_noun_frequency=mf)
        if (mf, ms) == (5, .5):
            args = {}
            m.seen('v1_defaults')
        if cand:
            args['noun_candidates'] = cand
        got = ex.extract(**args)
        m.eq(sents, frozen, 'v1-sentences-modified')
        for w, s in got.items():
            m.expect(len(w) >= 2 and beg[w] >= tf and w in lset, 'v1-unsupported', noun=w, score=s, begins=beg[w])
            m.expect(mf <= s.frequency <= beg[w], 'v1-frequency', noun=w, score=s, begins=beg[w], minimum=mf)
            m.expect(ms <= s.score <= 1, 'v1-score', noun=w, score=s, minimum=ms)
            m.expect(0 <= s.known_r_ratio <= 1, 'v1-ratio', noun=w, score=s)
            want = score(w)
            if want is not None:
                m.close(s.score, want[0], 'v1-score-definition', noun=w)
                m.close(s.known_r_ratio, want[1], 'v1-ratio-definition', noun=w)
            m.expect(not cand or w in cand, 'v1-not-a-candidate', noun=w)
            m.seen('v1_covered_by_longer', s.frequency < beg[w])
        # sums within rounding distance of the minimum decide nothing
        ties = any(abs((score(w) or (9,))[0] - ms) < 1e-9 for w in lset)
        exact = all(s * 8 == int(s * 8) for s in K.values())
        m.seen('v1_exact_tie', ties and exact)
        if exact or not ties:
            same(got, reference(cand), 'v1-reference')
        m.expect(sum(s.frequency for s in got.values()) <= sum(cnt.values()), 'v1-word-counted-twice', got=dict(got))
        m.seen('v1_noun', len(got))
        spoil(ex.extract(**args))
        same(ex.extract(**args), dict(got), 'v1-repeat')
        # asking about one word: its score, or with few endings what its parts among given nouns tell
        scored = {w: s for w, s in ((w, score(w)) for w in lset) if s and len(w) > 1}
        for _ in range(12):
            w = rng.choice(sorted(lset)) if lset and rng.random() < .7 else rng.choice(sents or ['가']).replace(' ', '')[:8] or '가'
            parts = {x: scored.get(x, (rng.choice((.3, .5, .8)), .5)) for e in range(1, len(w)) for x in (w[:e], w[e:]) if rng.random() < .5}
            want = score(w)
            m.seen('v1_asked_scored', want is not None)
            mine = want or (0.0, 0)
            if want is None:
                cands = []
                for e in range(1, len(w)):
                    if w[:e] in parts and w[e:] in parts:
                        cands.append(max(parts[w[:e]], parts[w[e:]]))
                        m.seen('v1_asked_compound')
                    elif w[:e] in parts and K.get(w[e:], 0) > ms:
                        cands.append((K[w[e:]], 0))
                        m.seen('v1_asked_ending')
                top = [x for x in cands if x[0] == max(y[0] for y in cands)]
                mine = top[0] if top else (0.0, 0)
            got_p = ex.predict(w, ms, parts)
            m.expect(all(abs(p - q) < 1e-9 for p, q in zip(got_p, mine)), 'v1-asked-score', word=w, nouns=parts, got=got_p, want=mine)
            got_p = ex.predict(w)
            m.expect(all(abs(p - q) < 1e-9 for p, q in zip(got_p, want or (0, 0))), 'v1-asked-alone', word=w, got=got_p, want=want)
            if want is None or exact or abs(want[0] - ms) > 1e-9:
                m.eq(ex.is_noun(w, ms), (want or (0,))[0] >= ms, 'v1-is-noun', word=w, score=want)
        low = ex.extract(**dict(args, min_noun_frequency=1))
        m.seen('v1_min_frequency', any(s.frequency < mf for s in low.values()))
        same({w: s for w, s in low.items() if s.frequency >= mf}, got, 'v1-minimum-frequency')
        same(ex.extract(**args), dict(got), 'v1-repeat-after')
        sh = list(sents)
        rng.shuffle(sh)
        ex2 = LRNounExtractor(**kw)
        if mf == tf and not cand:
            again = ex2.train_extract(sh, ms, mf) if args else ex2.train_extract(sh)
        else:
            ex2.train(sh, tf)
            again = ex2.extract(**args)
        same(again, dict(got), 'v1-order')
        ex2.train(corpus(rng), 1)
        ex2.extract()
        ex2.train(sents, tf)
        same(ex2.extract(**args), dict(got), 'v1-retrained')
        if got and len(got) < len(lset):
            m.nontrivial('v1', sents, sorted((k, str(v)) for k, v in kw.items()), tf, mf, ms)
    m.each('v1', m.n(400, 12000), v1)

    def planted(rng):
        syl = list(free)
        rng.shuffle(syl)
        words, nouns = Counter(), {}
        for _ in range(rng.randrange(1, 6)):
            N = ''.join(syl.pop() for _ in range(rng.choice((2, 2, 3, 4))))
            ends = []
            while len(ends) < rng.randrange(2, 5):
                r = rng.choice(strong)
                if not any(r[0] == x[0] for x in ends):
                    ends.append(r)
            tot = 0
            for r in ends:
                k = rng.choice((3, 5, 9))
                words[N + r] += k
                tot += k
            if rng.random() < .5:
                words[N] += 4
                tot += 4
            nouns[N] = tot
        bag = list(words.elements())
        rng.shuffle(bag)
        sents = [' '.join(bag[i:i + 4]) for i in range(0, len(bag), 4)]
        return sents, nouns, words

    def planted_v1(c):
        sents, nouns, words = planted(c.rng)
        c.note(words=dict(words))
        got = LRNounExtractor(verbose=False).train_extract(sents, .5, 3)
        for N, k in nouns.items():
            if m.expect(N in got, 'v1-known-noun-missed', noun=N, got=dict(got)):
                m.eq(got[N].frequency, k, 'v1-known-noun-frequency', noun=N)
                m.expect(got[N].score >= .999, 'v1-known-noun-score', noun=N, got=got[N])
            m.seen('v1_planted')
        m.expect(set(got) <= set(nouns), 'v1-noun-with-ending', extra=sorted(set(got) - set(nouns)))
        m.nontrivial('planted', sorted(words.items()))
    m.each('planted_v1', m.n(150, 3000), planted_v1)

    def news_model(sents, L, R, base=(), rng=None, K=sejong):
        """a model per order in which the words may have been met"""
        cnt = Counter(w for s in sents for w in s.split() if len(w) <= L + R)
        orders = [(list(cnt.items()), None)]
        if rng:
            orders += [(orders[0][0], len), (orders[0][0], lambda w: -len(w)), (rng.sample(orders[0][0], len(cnt)), None)]
        return [News(K, o, L, R, base, m.seen if i == 0 else lambda r: None, key) for i, (o, key) in enumerate(orders)]

    def news(c):
        rng = c.rng
        sents = corpus(rng)
        L, R = rng.choice((10, 10, 4)), rng.choice((7, 7, 3))
        kw = dict(verbose=rng.random() < .2)
        if (L, R) != (10, 7):
            kw.update(max_left_length=L, max_right_length=R)
        base = []
        if rng.random() < .3:
            base = rng.sample(text.NOUNS, 4)
            if rng.random() < .5:
                sents = rng.choice((layered, ruled))(rng, base)
            base = base + ['없는명사']
            kw['base_noun_dictionary'] = rng.choice((set(base), list(base), {w: 1 for w in base}))
        mf, ms = rng.choice((1, 3, 3, 6)), rng.choice((.1, .4, .4, .8, .5))
        args = dict(min_noun_score=ms, min_frequency=mf)
        if (mf, ms) == (3, .4) and rng.random() < .5:
            args = {}
        c.note(sentences=sents, config=kw, extract=args)
        K = predictors(rng, kw, sents)
        models = news_model(sents, L, R, base, rng, K)
        cand = None
        if rng.random() < .2:
            cand = rng.sample(sorted(models[0].g), min(len(models[0].g), 12)) + ['없는말', '하늘']
            args['noun_candidates'] = cand
        ex = NewsNounExtractor(**kw)
        frozen, fb = list(sents), repr(kw.get('base_noun_dictionary'))
        if rng.random() < .4:
            got = ex.train_extract(sents, min_frequency=mf, min_noun_score=ms, noun_candidates=cand)
        else:
            ex.train(sents)
            got = ex.extract(**args)
        m.eq(sents, frozen, 'news-sentences-modified')
        m.eq(repr(kw.get('base_noun_dictionary')), fb, 'news-base-dictionary-modified')

        def judge(got, models, cand=None):
            refs = [x.nouns(mf, ms, cand) for x in models]
            # sums within rounding distance of a threshold decide nothing, unless they are exact
            exact = all(s * 8 == int(s * 8) for s in models[0].K.values())
            close = not exact and any(abs(models[0].predict(l)[0] - t) < 1e-9 for l in models[0].g for t in (ms, .4, .7))
            m.seen('news_near_tie', close)
            for w in set(got).union(*refs) if not close else ():
                if len({w in r for r in refs}) == 1:        # else the rules depend on the order of the words
                    m.eq(w in got, w in refs[0], 'news-reference', noun=w, got=got.get(w), want=refs[0].get(w))
            for w, s in got.items():
                want = models[0].predict(w)
                for name, a, b in zip(s._fields, s, want):
                    m.close(a, b, 'news-' + name, noun=w, score=s)
                if w in base:
                    m.seen('news_base')
                    continue
                m.expect(s.frequency >= max(1, mf), 'news-frequency', noun=w, score=s, minimum=mf)
                m.expect(len(w) >= 2, 'news-single-character', noun=w)
                m.expect(s.score > ms or len(w) >= 4, 'news-score', noun=w, score=s, minimum=ms)
                m.seen('news_compound', s.score <= ms)
            m.expect(set(base) <= set(got), 'news-base-missing', got=sorted(got))
        judge(got, models, cand)
        m.seen('news_noun', len(got))
        first = dict(got)
        spoil(ex.extract(min_noun_score=ms, min_frequency=mf, noun_candidates=cand))
        same(ex.extract(min_noun_score=ms, min_frequency=mf, noun_candidates=cand), first, 'news-repeat')
        ex.extract(min_noun_score=.01, min_frequency=1)
        same(ex.extract(min_noun_score=ms, min_frequency=mf, noun_candidates=cand), first, 'news-repeat-after')
        same(got, first, 'news-result-changed-later')
        other = corpus(rng)
        ex.train(other)
        second = ex.extract(min_noun_score=ms, min_frequency=mf)
        judge(second, news_model(other, L, R, base, rng, K))
        m.seen('news_second_corpus')
        sh = list(sents)
        rng.shuffle(sh)
        ex.train(sh)
        judge(ex.extract(min_noun_score=ms, min_frequency=mf), news_model(sh, L, R, base, rng, K))
        if got and len(got) < len(models[0].g):
            m.nontrivial('news', sents, sorted((k, str(v)) for k, v in kw.items()), mf, ms)
    m.each('news', m.n(600, 12000), news)

    def planted_news(c):
        sents, nouns, words = planted(c.rng)
        c.note(words=dict(words))
        got = NewsNounExtractor(verbose=False).train_extract(sents)
        for N, k in nouns.items():
            if N in got:        # hand-written news rules may still drop it
                m.eq(got[N].frequency, k, 'news-known-noun-frequency', noun=N)
                m.close(got[N].score, news_model(sents, 10, 7)[0].predict(N)[0], 'news-known-noun-score', noun=N)
                m.seen('news_planted')
    m.each('planted_news', m.n(150, 3000), planted_news)
