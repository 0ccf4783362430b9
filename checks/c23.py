# -*- coding: utf-8 -*-
"""C23: predicate extraction - soundness by re-conjugation and recount, completeness for the inverted rules, no side effects."""
import contextlib
import copy
import io
import re
from collections import Counter
from mon import text
from mon.canon import spoil
from checks.c21 import recovered
from checks.c22 import reference, split

RULE = '''Corpora of conjugated dictionary stems, noun + josa words, single syllables, hostile and foreign words x default and small
dictionaries x frequency minima x supply forms (sentences, counter, graph, candidate dict) x ending/stem extraction on or off: every
reported analysis reconjugated by the independent rule table and looked up, frequencies recounted, words that must be found
found; repeated, re-supplied and caller-owned data compared. Non-trivial: a word was reported and a word rejected.'''


def bare_nouns(nouns, S):
    """the nouns that are not a stem without its last syllable, or without its last two when that is not a noun"""
    return set(nouns) - {x[:-1] if x[:-1] in nouns else x[:-2] for x in S if x[:-1] in nouns or x[:-2] in nouns}


class Cut(dict):
    """the endings dropped from words; endings: whether the ending is forgotten altogether"""

    def __init__(self):
        self.endings = {}


def predicates(words, S, E, N, J):
    """word -> {(stem, ending)}: every inverted analysis into known parts that conjugates back, except of noun + particle and except
    analyses whose short ending is found mostly in two-syllable words that are nouns"""
    from soynlp.lemmatizer import conjugate, lemma_candidate
    out, by = {}, {}
    for w in words:
        if any(w[:i] in N and w[i:] in J for i in range(1, len(w))):
            continue
        got = {(s, e) for i in range(1, len(w) + 1) for s, e in lemma_candidate(w[:i], w[i:]) if s in S and e in E and w in conjugate(s, e)}
        if got:
            out[w] = got
            for s, e in got:
                by.setdefault(e, []).append(w)
    cut = Cut()
    for e, ws in by.items():
        two = [w for w in ws if len(w) == 2]
        if len(e) < 3 and two and sum(w in N for w in two) / len(two) >= .5:
            cut.endings[e] = len(two) == len(ws)
            for w in ws:
                if len(two) == len(ws) or w in two and w in N or len(w) == 3 and len(e) == 2:
                    cut.setdefault(w, set()).add(e)
    return {w: {x for x in got if x[1] not in cut.get(w, ())} for w, got in out.items()}, cut


def is_verb(s, found, V, A):
    """dictionary first, then the suffix, then whether forms only verbs have are among the predicates found"""
    from soynlp.lemmatizer import conjugate
    if s in V or s in A:
        return s in V
    if s[-1] in '같답롭이' or s[-2:] in ('만하', '스럽', '시럽', '아니'):
        return False
    if s[-2:] in ('거리', '당하', '당허', '시키'):
        return True
    _, v, f = split(s[-1])
    ends = (['는다', '는다고'] if f.strip() else ['ㄴ다', 'ㄴ다고']) + ['고있는', '어라' if v in 'ㅓㅕ' else '아라', '자', 'ㄹ까', 'ㄹ까봐', '까', '까봐', '을까', '을까봐']
    return len({x for e in ends for x in conjugate(s, e) if x in found}) > 1


def run(m):
    from soynlp.predicator import PredicatorExtractor, Predicator
    from soynlp.utils import EojeolCounter
    from soynlp.normalizer import normalize_sent_for_lrgraph
    from soynlp.utils.utils import installpath

    def freq_words(p, k):
        out = []
        for x in open('%s/lemmatizer/dictionary/default/%s' % (installpath, p), encoding='utf-8'):
            w, n = x.split()
            if int(n) >= k:
                out.append(w)
        return out
    ADJ, VERB = freq_words('Stem/Adjective.txt', 2), freq_words('Stem/Verb.txt', 2)
    EOMI = freq_words('Eomi/Eomi.txt', 20)
    kor = re.compile('[가-힣]+$')
    DEFAULT_JOSA = {x.strip() for x in open('%s/postagger/dictionary/default/Josa/josa_chat.txt' % installpath, encoding='utf-8')}
    ADJK, VERBK = [x for x in ADJ if kor.match(x)], [x for x in VERB if kor.match(x)]
    EOMIK = [e for e in EOMI if re.fullmatch('[가-힣ㄴㄹㅁㅂㅆ][가-힣]*', e)]
    JOSA = ['은', '는', '이', '가', '을', '를', '에서', '에게', '으로', '와', '과', '도', '만', '까지']
    NOUN = ['학교', '사람', '음악', '경제', '바다', '기술', '나라', '회사', '감', '말']
    m.require('verb', 'adjective', 'both', 'must_find', 'rejected_rare', 'rejected_noun', 'rejected_foreign', 'counter', 'graph', 'candidates',
              'default_dictionary', 'eomi_extraction', 'stem_extraction', 'extracted_eomi', 'repeat', 'normalized', 'empty', 'at_minimum',
              'two_analyses', 'short_ending_of_nouns', 'analysis_dropped', 'rejected_nested_noun', 'noun_not_particle',
              'long_word', 'long_noun', 'noun_of_a_stem')

    def body(c):
        rng = c.rng
        default, twin = rng.random() < .25, []
        if default:
            adj, verb, eomi = ADJ, VERB, EOMI
            kw = {}
            m.seen('default_dictionary')
        else:
            adj, verb = rng.sample(ADJK, rng.randrange(1, 25)), rng.sample(VERBK, rng.randrange(1, 40))
            if rng.random() < .3:
                verb = verb + rng.sample(adj, 1)
            if rng.random() < .3:
                # long stems; a stem and the same without its last syllable, the rest of which is a noun
                for k in range(3):
                    s = ''.join(text.syllable(rng) for _ in range(rng.choice((1, 4, 7, 8, 9, 10)))) + rng.choice(rng.choice((adj, verb)))
                    rng.choice((adj, verb)).append(s)
                    if k == 0 and len(s) > 2:
                        rng.choice((adj, verb)).append(s[:-1])
                        twin.append(s[:-2])
            eomi = rng.sample(EOMIK[:300], rng.randrange(1, 40)) + (rng.choice(([], ['고', '다', '었다', '아', '는', '면', '게', '지'])))
            kw = {'adjectives': set(adj), 'verbs': set(verb), 'eomis': set(eomi)}
        nouns = set(rng.sample(NOUN, rng.randrange(0, len(NOUN))))
        if rng.random() < .2:
            nouns |= {rng.choice(verb)[:-1] or '하', rng.choice(adj)}
        josas = set(rng.sample(JOSA, rng.randrange(1, len(JOSA)))) if rng.random() < .7 else None
        small = [], []
        pool = []
        ae = [(s, e) for s in rng.sample(list(adj), min(len(adj), 8)) + rng.sample(list(verb), min(len(verb), 10)) + [s for s in adj + verb if len(s) > 5 or s[:-2] in twin][:0 if default else 6]
              for e in rng.sample(list(eomi), min(len(eomi), 6)) if kor.match(s)
              and re.fullmatch('[가-힣ㄴㄹㅁㅂㅆ][가-힣]*', e)]
        for s, e in ae:
            must, _ = reference(s, e)
            pool += sorted(must)
        for w in rng.sample(pool, min(len(pool), rng.choice((0, 0, 3, 8)))):
            # a predicate form that is also noun + particle, the noun beginning with another noun or not
            i = rng.randrange(1, len(w)) if len(w) > 1 else 0
            if i:
                josas = josas or set(rng.sample(JOSA, 3))
                nouns |= {w[:i]} | ({w[:rng.randrange(1, i)]} if i > 1 and rng.random() < .6 else set())
                nouns |= {w[:rng.randrange(i + 1, len(w))]} if len(w) - i > 1 and rng.random() < .4 else set()
                if rng.random() < .8:
                    josas.add(w[i:])
        for t in twin:
            for w in [w for w in pool if w.startswith(t) and len(w) > len(t)]:
                if rng.random() < .7:
                    nouns.add(t)
                    josas = josas or set(rng.sample(JOSA, 3))
                    josas.add(w[len(t):])
                    m.seen('noun_of_a_stem')
        if rng.random() < .35:
            # predicate forms that are nouns of two syllables: their short endings are distrusted
            if not default and rng.random() < .6:
                # every way to take some words apart is in the dictionary
                from soynlp.lemmatizer import lemma_candidate
                for w in rng.sample(pool, min(len(pool), 12)):
                    for i in range(1, len(w) + 1):
                        for s, e in lemma_candidate(w[:i], w[i:]):
                            if kor.match(s) and re.fullmatch('[가-힣ㄴㄹㅁㅂㅆ][가-힣]*', e) and rng.random() < .8:
                                eomi.append(e)
                                (verb if rng.random() < .5 else adj).append(s)
                kw.update(adjectives=set(adj), verbs=set(verb), eomis=set(eomi))
            nouns |= {w for w in pool if len(w) == 2 and rng.random() < .7}
        if rng.random() < .06:
            pool = []
        pool += [n + j for n in rng.sample(NOUN, 4) for j in rng.sample(JOSA, 3)]
        pool += [text.eojeol(rng) for _ in range(rng.randrange(6))]
        pool += [w + rng.choice(('A', 'ㅋ', '1', '.')) for w in rng.sample(pool, 2)]
        sents = []
        for _ in range(rng.choice((1, 5, 30, 60))):
            sents.append(' '.join(rng.choice(pool) for _ in range(rng.randrange(1, 9))))
        if rng.random() < .004:
            more = [x for x in pool] + [text.syllable(rng) + rng.choice(('하', '리', '')) + rng.choice(('고', '는', '다', '었다')) for _ in range(6000)]
            rng.shuffle(more)
            sents = [' '.join(more[i:i + 9]) for i in range(0, len(more), 9)]
            m.seen('large')
        mef, mpf = rng.choice((1, 1, 2, 2, 3)), rng.choice((1, 1, 2, 3))
        kw['ensure_normalized'] = rng.random() < .5
        kw['verbose'] = rng.random() < .3
        ex_eomi = rng.random() < .25
        ex_stem = not default and rng.random() < .15
        kw['extract_eomi'], kw['extract_stem'] = ex_eomi, ex_stem
        tkw = {}
        if ex_eomi:
            tkw = dict(min_num_of_features=rng.choice((1, 2, 5)), min_eomi_score=rng.choice((.1, .3, .7)), min_eomi_frequency=rng.choice((1, 3)))
            m.seen('eomi_extraction')
        if ex_stem:
            tkw.update(min_num_of_unique_R_char=rng.choice((1, 2)), min_entropy_of_R_char=0, min_stem_score=rng.choice((.1, .7)), min_stem_frequency=rng.choice((1, 3)))
            m.seen('stem_extraction')
        form = rng.choice(('sents', 'sents', 'counter', 'graph', 'candidates'))
        c.note(sentences=sents, adjectives=sorted(adj) if not default else 'default', verbs=sorted(verb) if not default else 'default',
               eomis=sorted(eomi) if not default else 'default', nouns=sorted(nouns), josas=josas and sorted(josas),
               min_eojeol_frequency=mef, min_predicator_frequency=mpf, form=form, config={k: v for k, v in kw.items() if isinstance(v, bool)}, train=tkw)
        given = copy.deepcopy((nouns, josas, kw))
        pre = (lambda s: s) if kw['ensure_normalized'] or form != 'sents' else normalize_sent_for_lrgraph
        m.seen('normalized', pre is normalize_sent_for_lrgraph)
        cnt = Counter(w for s in sents for w in pre(s).split() if len(w) <= 15)
        cand = None
        with contextlib.redirect_stdout(io.StringIO()):
            x = PredicatorExtractor(nouns, josas, **kw)
            if form == 'sents':
                inputs = sents
            else:
                inputs = EojeolCounter(sents)
                m.seen('counter', form == 'counter')
                if form == 'graph':
                    inputs = inputs.to_lrgraph(10, 9)
                    m.seen('graph')
                elif form == 'candidates':
                    cand = {w: k + 100 for w, k in rng.sample(sorted(cnt.items()), max(1, len(cnt) // 2)) if kor.match(w)} or None
                    m.seen('candidates', cand is not None)
            before = dict(inputs.items()) if form == 'counter' else None
            x.train(inputs, mef, **tkw)
            adjs, verbs = x.extract(cand, mpf)
            if rng.random() < .3:
                spoil(x.extract(cand, mpf))
                m.seen('result_changed')
            again = x.extract(cand, mpf)
        m.expect(again == (adjs, verbs), 'repeat-differs', first=str((adjs, verbs))[:300], second=str(again)[:300])
        m.seen('repeat')
        if before is not None:
            m.eq(dict(inputs.items()), before, 'caller-counter-modified')
        m.eq((nouns, josas, kw), given, 'caller-dictionary-modified')
        if cand is not None:
            considered = dict(cand)
        else:
            considered = {w: k for w, k in cnt.items() if k >= max(mef, mpf) and kor.match(w)}
        A, V, E = set(adj), set(verb), set(eomi)
        prefixes = {s[:-1] for s in A | V} | {s[:-2] for s in A | V}
        sure_nouns = nouns - prefixes
        J = josas if josas is not None else DEFAULT_JOSA
        allwords = set(adjs) | set(verbs)
        for tag, got in (('Adjective', adjs), ('Verb', verbs)):
            for w, p in got.items():
                m.expect(isinstance(p, Predicator) and bool(p.lemma), 'predicator-type', word=w, value=repr(p))
                if not m.expect(w in considered, 'word-not-eligible', word=w, tag=tag, count=cnt.get(w), minimum=max(mef, mpf)):
                    continue
                m.eq(p.frequency, considered[w], 'frequency', word=w, tag=tag)
                m.seen('at_minimum', cand is None and considered[w] == mpf)
                m.expect(not any(w[:i] in sure_nouns and w[i:] in J for i in range(1, len(w))), 'noun-and-particle-reported', word=w)
                m.seen('noun_not_particle', any(w[:i] in sure_nouns for i in range(1, len(w))))
                m.seen('two_analyses', len(p.lemma) > 1)
                for s, e in p.lemma:
                    must, may = reference(s, e)
                    m.expect(w in must or w in may, 'does-not-conjugate-back', word=w, stem=s, ending=e)
                    m.expect(ex_eomi or e in E, 'unknown-ending', word=w, ending=e)
                    m.seen('extracted_eomi', e not in E)
                    if tag == 'Verb':
                        m.expect(s in V or (ex_stem and s not in A), 'verb-stem', word=w, stem=s)
                    else:
                        m.expect(s not in V and (s in A or ex_stem), 'adjective-stem', word=w, stem=s)
        m.seen('verb', len(verbs))
        m.seen('adjective', len(adjs))
        m.seen('both', len(set(verbs) & set(adjs)))
        m.seen('empty', not considered)
        m.seen('long_word', any(len(w) > 10 for w in allwords))
        m.seen('long_noun', any(w[:i] in nouns and w[i:] in J for w in considered for i in range(10, len(w))))
        if not (ex_eomi or ex_stem):
            want, cut = predicates(considered, A | V, E, bare_nouns(nouns, A | V), J)
            m.seen('short_ending_of_nouns', len(cut))
            m.seen('analysis_dropped', sum(1 for w in cut if want[w]))
            for tag, got in (('Adjective', adjs), ('Verb', verbs)):
                must = {w: {x for x in want[w] if is_verb(x[0], want, V, A) == (tag == 'Verb')} for w in want}
                m.eq({w: sorted(q.lemma) for w, q in got.items()}, {w: sorted(x) for w, x in must.items() if x}, 'analyses', tag=tag)
        quiet = not any(len(w) == 2 and w in nouns for w in considered)
        for s, e in set(ae):
            must, _ = reference(s, e)
            for w, why in must.items():
                if w not in considered:
                    m.seen('rejected_rare', cnt.get(w, 0) > 0)
                    continue
                if any(w[:i] in nouns and w[i:] in J for i in range(1, len(w))):
                    m.seen('rejected_noun', w not in allwords)
                    m.seen('rejected_nested_noun', w not in allwords and sum(w[:i] in sure_nouns for i in range(1, len(w))) > 1)
                    continue
                if not recovered(why, s, e) or (split(e[0]) or ' ' * 3)[2] == 'ㅎ':
                    continue
                if len(e) >= 3 or quiet:
                    where = verbs if s in V else adjs
                    if m.expect(w in where, 'predicate-missed', word=w, stem=s, ending=e, frequency=considered[w]):
                        m.expect((s, e) in where[w].lemma, 'analysis-missed', word=w, stem=s, ending=e, got=sorted(where[w].lemma))
                    m.seen('must_find')
        m.seen('rejected_foreign', sum(1 for w in cnt if not kor.match(w)))
        if allwords and set(considered) - allwords:
            m.nontrivial(sents, sorted(nouns), form, mef, mpf, len(adj), len(eomi))

    def forms(c):
        """the same corpus supplied three ways gives the same predicates"""
        rng = c.rng
        adj, verb = rng.sample(ADJK, 20), rng.sample(VERBK, 20)
        eomi = rng.sample(EOMIK[:200], 30)
        pool = []
        for _ in range(25):
            pool += sorted(reference(rng.choice(adj + verb), rng.choice(eomi))[0])
        pool = [w for w in pool if len(w) <= 10] or ['하고']
        sents = [' '.join(rng.choice(pool) for _ in range(6)) for _ in range(20)]
        ee = rng.random() < .5
        c.note(sentences=sents, adjectives=adj, verbs=verb, eomis=eomi, extract_eomi=ee)
        out = []
        for form in range(4):
            x = PredicatorExtractor({'학교'}, {'은'}, set(adj), set(verb), set(eomi), extract_eomi=ee, ensure_normalized=True, verbose=False)
            cnt = EojeolCounter(sents)
            inp = sents if form == 0 else cnt if form == 1 else cnt.to_lrgraph() if form == 2 else rng.sample(sents, len(sents))
            with contextlib.redirect_stdout(io.StringIO()):
                out.append(x.train_extract(inp, 1, min_num_of_features=1))
        for k in (1, 2, 3):
            m.expect(out[k] == out[0], 'supply-form', form=k, first=str(out[0])[:300], other=str(out[k])[:300])
        m.nontrivial(sents, ee)
    def short(c):
        """words of two and three syllables taken apart in every way, many of them nouns"""
        from soynlp.lemmatizer import lemma_candidate
        rng = c.rng
        S = rng.sample([s for s in ADJK + VERBK if len(s) < 3], 12)
        E = rng.sample([e for e in EOMIK if len(e) < 3], 12) + rng.sample([e for e in EOMIK if len(e) == 3], 4)
        pool = sorted({w for s in S for e in E for w in reference(s, e)[0] if len(w) in (2, 3, 4)}) or ['하고']
        pool = rng.sample(pool, min(len(pool), 40))
        for w in rng.sample(pool, min(len(pool), 25)):
            for i in range(1, len(w) + 1):
                for s, e in sorted(lemma_candidate(w[:i], w[i:])):
                    if kor.match(s) and re.fullmatch('[가-힣ㄴㄹㅁㅂㅆ][가-힣]*', e) and rng.random() < .8:
                        S.append(s)
                        E.append(e)
        nouns = {w for w in pool if len(w) == 2 and rng.random() < .8} | {w for w in pool if rng.random() < .05}
        k = rng.randrange(len(S) + 1)
        V, A = set(S[:k]), set(S[k:])
        josas = {'을', '까지'}
        cnt = {w: rng.randrange(1, 9) for w in pool}
        c.note(counts=cnt, nouns=sorted(nouns), verbs=sorted(V), adjectives=sorted(A), eomis=sorted(E))
        with contextlib.redirect_stdout(io.StringIO()):
            x = PredicatorExtractor(set(nouns), josas, set(A), set(V), set(E), ensure_normalized=True)
            adjs, verbs = x.train_extract([' '.join([w] * k) for w, k in cnt.items()], 1)
        want, cut = predicates(cnt, A | V, set(E), bare_nouns(nouns, A | V), josas)
        m.seen('short_ending_of_nouns', len(cut))
        m.seen('analysis_dropped', sum(1 for w in cut if want[w]))
        for tag, got in (('Adjective', adjs), ('Verb', verbs)):
            must = {w: {y for y in want[w] if is_verb(y[0], want, V, A) == (tag == 'Verb')} for w in want}
            m.eq({w: (q.frequency, sorted(q.lemma)) for w, q in got.items()}, {w: (cnt[w], sorted(y)) for w, y in must.items() if y}, 'short-word-analyses', tag=tag)
        if cut:
            m.nontrivial(sorted(cnt), sorted(nouns), sorted(E))
    m.each('corpora', m.n(350, 8000), body)
    m.each('short', m.n(250, 8000), short)
    m.each('forms', m.n(40, 800), forms)
