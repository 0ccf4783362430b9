# -*- coding: utf-8 -*-
"""C25: template taggers conserve the text; tags come from the dictionary."""
from mon import text

RULE = '''random tag dictionaries over tiny alphabets (many overlaps, several tags per word, one-character words, empty classes) and Korean
noun/josa/verb dictionaries x sentences of known, unknown, repeated and mixed words and hostile text x both template/evaluator pairs x custom
templates, tags, weights and preferences. Oracle: concatenation, offsets, dictionary membership, candidate completeness against a
direct enumeration, best-scored candidate chosen, nothing chosen overlaps, nothing compatible omitted. Non-trivial: a word with both
known and unknown parts; keyed by (dictionary, sentence).'''


LRW = (.3, .15, .2, .1, .1, .1, -.2)
EOW = (-.1, -.15, .2, -.3, .1, -.05, .1, .2)


def lr_score(x, ek):
    w = [v for _, v in ek['weights']] if 'weights' in ek else LRW
    f = (x.l_tag == 'Noun', x.l_tag is not None and x.r_tag is not None, x.l_tag == 'Verb', x.l_tag == 'Adjective',
         x.m - x.b, x.e - x.m, x.m - x.b == 1)
    pref = ek.get('preference', {})
    return sum(a * b for a, b in zip(w, f)) + pref.get(x.l_tag, {}).get(x.l, 0) + pref.get(x.r_tag, {}).get(x.r, 0)


def eojeol_score(xs, ek):
    w = [v for _, v in ek['weights']] if 'weights' in ek else EOW
    n, tags = len(xs), [x.l_tag for x in xs]
    f = (tags.count('Noun'), n, 'Noun' in tags, tags.count(None), n > 1 and set(tags) == {'Adverb'}, n > 1 and set(tags) == {'Noun'},
         n == 1 and (tags[0], xs[0].r_tag) == ('Noun', 'Josa'), n == 1 and tags[0] == 'Noun' and not xs[0].r)
    return sum(a * b for a, b in zip(w, f))


def chain(tok, known):
    """the word as a run of the shortest words of one tag, not the word itself"""
    out, b = [], 0
    while b < len(tok):
        e = next((i for i in range(b + 1, len(tok) + (b > 0)) if tok[b:i] in known), None)
        if e is None:
            return None
        out.append((b, e))
        b = e
    return out


def run(m):
    from soynlp.postagger import (Dictionary, EojeolTemplateMatcher, LRTemplateMatcher, SimpleEojeolEvaluator, LREvaluator,
                                  SimpleTagger, UnknowLRPostprocessor)
    from soynlp.postagger._template import LR
    m.require('first_unknown', 'last_unknown', 'inner_unknown', 'all_unknown', 'lr_known', 'compound', 'overlap_dropped',
              'preference', 'blank', 'several_known', 'eojeol_unknown', 'eojeol_lr', 'eojeol_multi', 'many_divisions', 'long_words', 'many_tags', 'edited', 'zero_weights', 'dozens')

    def world(rng):
        if rng.random() < .6:
            ab = rng.choice(('가나', '가나다', '가나다라마'))
            d = {t: [text.small_words(rng, ab, rng.choice((2, 4))) for _ in range(rng.randrange(0, 7))]
                 for t in ('Noun', 'Verb', 'Adjective', 'Adverb', 'Josa', 'Exclamation', 'Other')}
            words = [text.small_words(rng, ab, 9) for _ in range(rng.randrange(0, 7))]
            allw = [w for ws in d.values() for w in ws]
            for _ in range(rng.randrange(0, 4)):
                if allw:
                    words.append(''.join(rng.choice(allw) if rng.random() < .8 else '쿠' for _ in range(rng.randrange(1, 5))))
        else:
            d = {'Noun': rng.sample(text.NOUNS, 30), 'Josa': rng.sample(text.JOSA, 12), 'Adverb': ['너무', '매우', '빨리'],
                 'Verb': [rng.choice(text.VERBS) + rng.choice(text.ENDS) for _ in range(30)],
                 'Adjective': ['예쁘다', '예쁜', '좋은', '좋다'], 'Exclamation': ['앗', '와우']}
            words = []
            for _ in range(rng.randrange(0, 6)):
                words.append(text.eojeol(rng) if rng.random() < .5 else
                             rng.choice(d['Noun']) + rng.choice(d['Josa'] + ['', '쿠']) + rng.choice(('', '', '예쁜', '너무너무', '쿠쿠')))
        if rng.random() < .15:
            # one word that can be divided everywhere in every way
            w = ''.join(rng.choice('가나다라') for _ in range(rng.choice((5, 8))))
            for t in d:
                d[t] += [w[a:b] for a in range(len(w)) for b in range(a + 1, len(w) + 1) if rng.random() < .6]
            words.append(w)
            m.seen('many_divisions')
        if rng.random() < .1:
            # long known words, beside and inside each other
            ab = rng.choice(('가나', '가나다라마'))
            L = [''.join(rng.choice(ab) for _ in range(rng.choice((8, 11, 14, 25)))) for _ in range(4)]
            for w in L:
                d[rng.choice(('Noun', 'Noun', 'Adverb', 'Verb'))].append(w)
            d['Josa'] += ['으로' * 5, '에서']
            words += [L[0] + L[1], L[2] + '으로' * 5, '쿠' + L[3] + '에서', L[0] + L[1] + L[2], rng.choice(L) + rng.choice(L)]
            m.seen('long_words')
        if rng.random() < .03:
            # dozens of known words in one, with unknown letters between some of them
            ws = [w for w in d['Noun'] if len(w) > 1] or ['가나']
            d['Noun'] += ws[:1]
            words.append(''.join(rng.choice(ws) + rng.choice(('', '', '', '쿠')) for _ in range(rng.choice((40, 70)))))
            m.seen('dozens')
        if rng.random() < .2:
            words.append(text.hostile(rng, 8).strip() or '나')
        if words and rng.random() < .4:
            words.append(rng.choice(words))
        rng.shuffle(words)
        sent = rng.choice((' ', ' ', '  ', '\t')).join(words)
        if rng.random() < .1:
            sent = ' ' + sent + '\n'
        return d, sent

    def has(d, w, t):
        return w in d.get(t, ())

    def offsets(token, lrs, what, cover):
        pos = 0
        for x in lrs:
            m.expect(x.b >= pos, what + '-order', token=token, words=lrs)
            m.expect(x.b <= x.m <= x.e <= len(token) and x.l == token[x.b:x.m] and x.r == token[x.m:x.e],
                     what + '-offsets', token=token, words=lrs)
            if cover:
                m.expect(x.b == pos, what + '-contiguous', token=token, words=lrs)
            pos = x.e
        if cover:
            m.eq(''.join(x.l + x.r for x in lrs), token, what + '-cover', token=token, words=lrs)

    def tags(d, x, what):
        m.expect(x.l_tag is None or has(d, x.l, x.l_tag), what + '-foreign-tag', word=x)
        m.expect(x.r_tag is None or has(d, x.r, x.r_tag), what + '-foreign-right-tag', word=x)
        m.expect(bool(x.l), what + '-empty-left', word=x)

    def conserve(d, sent, tagger, per_word, what):
        words = sent.split()
        flat = tagger.tag(sent)
        nested = tagger.tag(sent, flatten=False)
        m.eq(len(nested), len(words), what + '-word-count', sentence=sent)
        m.eq([list(map(tuple, x)) for x in nested], per_word, what + '-nested', sentence=sent)
        m.eq([tuple(t) for x in nested for t in x], [tuple(t) for t in flat], what + '-flat', sentence=sent)
        m.eq(''.join(w for w, _ in flat), ''.join(words), what + '-conserved', sentence=sent, tagged=flat)
        for w, t in flat:
            m.expect(t is None or has(d, w, t), what + '-tag', word=w, tag=t)
            m.expect(bool(w), what + '-empty', tagged=flat)
        # a function of the sentence alone: other sentences in between, single words, repetition
        for w in words[:3]:
            alone = [tuple(t) for t in tagger.tag(w)]
            m.eq(alone, per_word[words.index(w)], what + '-context-dependent', word=w)
        m.eq(tagger.tag(sent), flat, what + '-repeat', sentence=sent)

    def pieces(lrs):
        out = []
        for x in lrs:
            if x.l:
                out.append((x.l, x.l_tag))
            if x.r:
                out.append((x.r, x.r_tag))
        return out

    def lr_body(c):
        rng = c.rng
        d, sent = world(rng)
        kw, ek = {}, {}
        ltags, templates = {'Noun', 'Adjective', 'Verb', 'Adverb', 'Exclamation'}, {'Noun': ('Josa', 'Verb', 'Adjective')}
        if rng.random() < .3:
            templates = kw['templates'] = rng.choice(({'Noun': ('Josa',)}, {'Noun': ['Josa', 'Noun'], 'Verb': ('Adverb',)}))
        if rng.random() < .3:
            ltags = kw['ltags'] = rng.choice(({'Noun'}, {'Noun', 'Verb', 'Other'}, ['Noun', 'Adverb']))
        if rng.random() < .3:
            ek['weights'] = tuple((n, rng.choice((0, .1, -.1, .3, 1, rng.randrange(-99, 99) / 256))) for n in
                                  ('is_noun_phrase', 'lr_are_known', 'is_verb', 'is_adjective', 'l_len', 'r_len', 'l_is_a_syllable'))
        allw = [(t, w) for t, ws in d.items() for w in ws]
        if 'weights' in ek and rng.random() < .4:
            some = rng.random() < .6
            ek['weights'] = tuple((n, rng.choice((0, 1e-5, 3e-5, .3)) * some) for n, _ in ek['weights'])
            m.seen('zero_weights', not any(w for _, w in ek['weights']))
        if rng.random() < .4 and allw:
            pref = {}
            for t, w in rng.sample(allw, min(rng.choice((3, 3, 60)), len(allw))):
                pref.setdefault(t, {})[w] = rng.choice((10, -10, .25))
            ek['preference'] = pref
            m.seen('preference')
        c.note(dictionary=d, sentence=sent, generator=kw, evaluator=ek)
        gen = LRTemplateMatcher(Dictionary(d), **kw)
        ev = LREvaluator(**ek)
        pp = UnknowLRPostprocessor()
        words = sent.split()
        m.seen('blank', not words)
        plain, full = [], []
        longest = max([0] + [len(w) for _, w in allw])
        for tok in words:
            cand = gen.generate(tok)
            want = set()
            n = len(tok)
            for b in range(n):
                for mid in range(b + 2, min(n, b + longest) + 1):
                    for lt in ltags:
                        if not has(d, tok[b:mid], lt):
                            continue
                        want.add(LR(tok[b:mid], lt, '', None, b, mid, mid))
                        for e in range(mid + 1, n + 1):
                            for rt in templates.get(lt, ()):
                                if has(d, tok[mid:e], rt):
                                    want.add(LR(tok[b:mid], lt, tok[mid:e], rt, b, mid, e))
                                    m.seen('lr_known')
            m.eq(set(cand), want, 'lr-candidates', token=tok)
            best = ev.select_best(list(cand))
            m.expect(set(best) <= want and len(set(best)) == len(best), 'lr-chosen-from-candidates', token=tok, chosen=best)
            offsets(tok, best, 'lr-chosen', False)
            score = {x: lr_score(x, ek) for x in want}
            for x in want:
                m.close(ev.evaluate(x), score[x], 'lr-score', word=x)
            if want:
                top = max(score.values())
                m.expect(any(score[x] >= top - 1e-9 for x in best), 'lr-best-not-chosen', token=tok, chosen=best)
                if 'preference' in ek:
                    x = rng.choice(sorted(want, key=repr))
                    base = LREvaluator(**{k: v for k, v in ek.items() if k != 'preference'}).evaluate(x)
                    extra = ek['preference'].get(x.l_tag, {}).get(x.l, 0) + ek['preference'].get(x.r_tag, {}).get(x.r, 0)
                    m.close(score[x], base + extra, 'preference-score', word=x)
            for x in want - set(best):
                # greedy: whatever was left out overlaps something chosen that scores at least as well
                ok = any(y.b < x.e and y.e > x.b and score[y] >= score[x] - 1e-9 for y in best)
                m.expect(ok, 'lr-omitted', token=tok, omitted=x, chosen=best)
                m.seen('overlap_dropped')
            m.seen('several_known', len(best) > 1)
            given = list(best)
            post = pp.postprocess(tok, list(best))
            m.eq(best, given, 'lr-chosen-modified')
            offsets(tok, post, 'lr-post', True)
            m.eq([x for x in post if x.l_tag is not None], best, 'lr-post-known', token=tok)
            for x in post:
                tags(d, x, 'lr')
            if not best:
                m.seen('all_unknown')
            else:
                m.seen('first_unknown', best[0].b > 0)
                m.seen('last_unknown', best[-1].e < n)
                m.seen('inner_unknown', any(a.e < b.b for a, b in zip(best, best[1:])))
                if sum(x.e - x.b for x in best) < n:
                    m.nontrivial(sorted((t, sorted(ws)) for t, ws in d.items()), tok)
            plain.append(pieces(best))
            full.append(pieces(post))
        conserve(d, sent, SimpleTagger(gen, ev, pp), full, 'lr-tagger')
        # without completion: exactly the known spans, in order
        t = SimpleTagger(gen, ev)
        m.eq([[tuple(w) for w in x] for x in t.tag(sent, flatten=False)], plain, 'lr-plain', sentence=sent)
        r, dbg = SimpleTagger(gen, ev, pp).tag(sent, debug=True)
        m.eq([tuple(w) for w in r], [w for x in full for w in x], 'lr-debug', sentence=sent)
        m.eq(len(dbg), len(words), 'lr-debug-words')
        for tok, sc in zip(words, dbg):
            m.eq(sorted(sc, key=repr), sorted(((x, ev.evaluate(x)) for x in gen.generate(tok)), key=repr), 'lr-debug-scores')
        for _ in range(6):
            n1, n2 = rng.choice((0, 1, 2, 5, 12, 60)), rng.choice((0, 0, 1, 3, 11, 50))
            lw, rw = rng.choice(allw)[1] if allw and rng.random() < .5 else '가' * n1, '나' * n2
            x = LR(lw, rng.choice(sorted(d) + [None]), rw, rng.choice(sorted(d)) if rw else None, 3, 3 + len(lw), 3 + len(lw + rw))
            m.close(ev.evaluate(x), lr_score(x, ek), 'lr-score', word=x)
    m.each('lr', m.n(1200, 25000), lr_body)

    def edited(c):
        """the dictionary is edited between two sentences: the tagger answers from what it holds now"""
        rng = c.rng
        d, sent = world(rng)
        allw = sorted((t, w) for t, ws in d.items() for w in ws)
        if not allw:
            return
        late = rng.sample(allw, rng.randrange(len(allw) + 1))
        extra = [(rng.choice(sorted(d)), w[:rng.randrange(1, len(w) + 1)]) for w in sent.split()[:3]]
        extra = [x for x in extra if x not in allw]
        c.note(dictionary=d, sentence=sent, added_later=late, removed_later=extra)
        first = {t: set(ws) for t, ws in d.items()}
        for t, w in late:
            first[t].discard(w)
        for t, w in extra:
            first[t].add(w)

        def made(table):
            dic = Dictionary({t: set(ws) for t, ws in table.items()})
            return dic, [SimpleTagger(LRTemplateMatcher(dic), LREvaluator(), UnknowLRPostprocessor()), SimpleTagger(EojeolTemplateMatcher(dic), SimpleEojeolEvaluator())]
        dic, taggers = made(first)
        _, fresh = made(d)
        for x in taggers:
            x.tag(sent)
        for t, w in late:
            taggers[0].dictionary.add_words(t, [w])
        for t, w in extra:
            dic.remove_words(t, [w])
        for what, x, y in zip(('lr', 'eojeol'), taggers, fresh):
            m.eq(x.tag(sent, flatten=False), y.tag(sent, flatten=False), what + '-after-editing', sentence=sent)
        m.seen('edited', len(late) + len(extra))
    m.each('edited', m.n(600, 8000), edited)

    def eo_body(c):
        rng = c.rng
        d, sent = world(rng)
        single, lrt = ['Noun', 'Verb', 'Adjective', 'Adverb', 'Exclamation'], [('Noun', 'Verb'), ('Noun', 'Adjective'), ('Noun', 'Josa')]
        kw, ek = {}, {}
        if rng.random() < .3:
            single = kw['single_tags'] = rng.choice((['Noun'], ['Noun', 'Other', 'Verb'], ['Noun', 'Verb', 'Adjective', 'Adverb', 'Exclamation', 'Josa', 'Other'],
                                                    ('Josa', 'Other', 'Exclamation', 'Adverb', 'Adjective', 'Verb', 'Noun')))
            m.seen('many_tags', len(single) > 5)
        if rng.random() < .3:
            lrt = kw['lr_templates'] = rng.choice(([('Noun', 'Josa')], [('Noun', 'Noun'), ('Adverb', 'Verb')],
                                                        [(a, z) for a in ('Noun', 'Adverb', 'Other') for z in ('Josa', 'Verb', 'Other', 'Noun')]))
        if rng.random() < .3:
            ek['weights'] = tuple((n, rng.choice((0, .1, -.1, .3, 1, rng.randrange(-99, 99) / 256))) for n in (
                'num_nouns', 'num_words', 'has_noun', 'has_unknown', 'is_adverb_repeat', 'is_compound_noun', 'is_noun_josa', 'is_a_noun'))
        c.note(dictionary=d, sentence=sent, generator=kw, evaluator=ek)
        gen, ev = EojeolTemplateMatcher(Dictionary(d), **kw), SimpleEojeolEvaluator(**ek)
        words = sent.split()
        per = []
        for tok in words:
            cand = gen.generate(tok)
            n = len(tok)
            want = {(LR(tok, t, '', None, 0, n, n),) for t in single if has(d, tok, t)}
            m.seen('eojeol_unknown', not want)
            if not want:
                want = {(LR(tok, None, '', None, 0, n, n),)}
            for b in range(1, n):
                for a, z in lrt:
                    if has(d, tok[:b], a) and has(d, tok[b:], z):
                        want.add((LR(tok[:b], a, tok[b:], z, 0, b, n),))
                        m.seen('eojeol_lr')
            got = {tuple(x) for x in cand}
            m.expect(want <= got, 'eojeol-candidate-missing', token=tok, missing=want - got)
            for x in got:
                offsets(tok, x, 'eojeol-candidate', True)
                for y in x:
                    tags(d, y, 'eojeol')
                m.close(ev.evaluate(list(x)), eojeol_score(x, ek), 'eojeol-score', token=tok, candidate=x)
                if x not in want:
                    m.expect(len(x) > 1 and len({y.l_tag for y in x}) == 1 and x[0].l_tag in ('Noun', 'Adverb')
                             and not any(y.r for y in x), 'eojeol-candidate-foreign', token=tok, candidate=x)
                    m.seen('compound')
            for t in ('Noun', 'Adverb'):
                ch = chain(tok, d.get(t, ()))
                if ch:
                    m.expect(tuple(LR(tok[b:e], t, '', None, b, e, e) for b, e in ch) in got, 'eojeol-compound-missing', token=tok, parts=ch, tag=t)
            best = ev.select_best(cand)
            m.seen('eojeol_multi', len(got) > 1)
            m.expect(tuple(best) in got, 'eojeol-chosen', token=tok, chosen=best)
            m.close(eojeol_score(best, ek), max(eojeol_score(x, ek) for x in got), 'eojeol-best', token=tok, chosen=best)
            per.append(pieces(best))
        conserve(d, sent, SimpleTagger(gen, ev), per, 'eojeol-tagger')
        m.nontrivial(sorted((t, sorted(ws)) for t, ws in d.items()), sent) if any(len(p) > 1 for p in per) else None
        # candidates of many words, as a long compound gives them
        for _ in range(3):
            n = rng.choice((1, 2, 9, 35, 60))
            few = [rng.choice(('Noun', 'Adverb', 'Verb', None)) for _ in range(rng.choice((1, 1, 2, 4)))]
            long = [LR('가' * rng.choice((1, 2, 9)), rng.choice(few), *rng.choice((('', None), ('', None), ('나', 'Josa'))), 0, 1, 1) for _ in range(n)]
            m.close(ev.evaluate(list(long)), eojeol_score(long, ek), 'eojeol-score', candidate=long[:5], words=n)
        # many candidates for one word
        many = [[LR('가', rng.choice(('Noun', 'Adverb', None)), '', None, 0, 1, 1) for _ in range(rng.randrange(1, 5))] for _ in range(rng.choice((1, 3, 80)))]
        best = ev.select_best(list(many))
        m.expect(any(best is x for x in many), 'eojeol-chosen-of-many', chosen=best)
        m.close(eojeol_score(best, ek), max(eojeol_score(x, ek) for x in many), 'eojeol-best-of-many', candidates=len(many))
    m.each('eojeol', m.n(1200, 25000), eo_body)
