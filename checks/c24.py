# -*- coding: utf-8 -*-
"""C24: part-of-speech extraction - conservation of corpus words over the reported classes, recount, re-conjugation."""
import contextlib
import io
import re
from collections import Counter
from mon import text
from checks.c09 import greedy
from checks.c22 import reference, split
from checks.c23 import predicates, bare_nouns, is_verb
from checks.c33 import endings
from checks.nounlib import disguise, real_corpus, Truth, v2_reference

RULE = '''Corpora of nouns with particles and predicates, conjugated dictionary stems (also glued to nouns and to other predicates),
adverbs, single syllables, hostile words and samples of the shipped news corpus x news and chat extractor x minima x ending
extraction on or off x normalization: every class recounted from the corpus, every word that is not reported unrecognized must be
explained by the classes, predicate analyses reconjugated by the independent rule table. Non-trivial: at least one noun and one
predicate or unrecognized word; keyed by (corpus, configuration).'''


def first_split(w, lset, rset):
    return next(((w[:i], w[i:]) for i in range(2, len(w)) if w[:i] in lset and w[i:] in rset), None)


def joins(stem, ending, chat):
    """may the last part of a predicate compound keep its analysis"""
    if chat and stem[-1] in '업닿땋':
        return False
    _, v, f = split(stem[-1])
    i, w, _ = split(ending[0]) or (ending[0], ' ', ' ')
    return not (f in ('ㄹ', 'ㅂ') and i in 'ㄴㄹㅁㅂ') and not (v == 'ㅡ' and not f.strip() and i == 'ㅇ' and w in 'ㅓㅏ')


def glued(words, preds, base, stems, chat, count):
    """predicate + predicate words -> analyses with the first part in the stem"""
    out = {}
    for w in words:
        lr = first_split(w, preds, base)
        got = {(lr[0] + s, e) for s, e in base[lr[1]]} if lr else set()
        got = {(s, e) for s, e in got if s not in stems and joins(s, e, chat)}
        if got:
            out[w] = got
    if chat:
        use = {}
        for w, got in out.items():
            for s, e in got:
                use.setdefault(s, Counter())[e] += count[w]
        wrong = {s for s, c in use.items() if sum(k for e, k in c.items() if 'ㄱ' <= e[0] <= 'ㅎ') / sum(c.values()) >= .9}
        out = {w: {x for x in got if x[0] not in wrong} for w, got in out.items()}
        out = {w: got for w, got in out.items() if got}
    return out


def lemmas_of(w, stems, endings_):
    from soynlp.lemmatizer import lemma_candidate
    for i in range(len(w), 0, -1):
        try:
            got = {x for x in lemma_candidate(w[:i], w[i:]) if x[0] in stems and x[1] in endings_}
        except Exception:
            continue
        if got:
            return got
    return None


def pipeline(cnt, nouns, adj, verb, AS, VS, E, J, ADV, chat, seen):
    """the documented sequence of matching steps over the words left by the steps before"""
    AS, VS, E, adj, verb = set(AS), set(VS), set(E), dict(adj), dict(verb)
    N, A, V, D = ({w: k for w, k in cnt.items() if w in t} for t in (nouns, adj, verb, ADV))
    left = {w: k for w, k in cnt.items() if not (w in N or w in A or w in V or w in D)}
    # noun + particle / adjective / verb; the nouns and predicates are those seen as words of their own
    taken, P = set(), {}
    for rset, tally in ((J, P), (set(A), A), (set(V), V)):
        for w, k in left.items():
            lr = first_split(w, N, rset)
            if lr:
                if w not in taken:
                    N[lr[0]] += k
                taken.add(w)
                tally[lr[1]] = tally.get(lr[1], 0) + k
    left = {w: k for w, k in left.items() if w not in taken}
    seen('noun_and_predicate', len(taken))
    # predicate + predicate
    preds = set(adj) | set(verb)
    wrong = set()
    for table, stems, tally in ((adj, AS, A), (verb, VS, V)):
        new = glued(left, preds, table, AS | VS, chat, left)
        table.update(new)
        stems |= {s for got in new.values() for s, _ in got}
        if chat:
            votes = Counter()
            for w, got in table.items():
                for _, e in got:
                    votes[e] += 1 if w in new else -1
            wrong |= {e for e, k in votes.items() if k > 0}
        for w in new:
            tally[w] = tally.get(w, 0) + left[w]
        seen('predicate_compound', len(new))
    E -= wrong
    seen('wrong_ending', len(wrong))
    left = {w: k for w, k in left.items() if w not in A and w not in V}
    # words that take apart into known stem and ending
    late = set()
    for table, stems, tally in ((adj, AS, A), (verb, VS, V)):
        for w, k in left.items():
            got = lemmas_of(w, stems, E)
            if got:
                table[w] = got
                tally[w] = tally.get(w, 0) + k
                late.add(w)
    seen('late_lemma', len(late))
    left = {w: k for w, k in left.items() if w not in late}
    # one syllable + predicate or particle
    taken = set()
    for tally in (A, V, P):
        for w, k in left.items():
            if w[1:] in tally:
                if w not in taken:
                    N[w[0]] = N.get(w[0], 0) + k
                tally[w[1:]] += k
                taken.add(w)
    seen('syllable_noun', len(taken))
    left = {w: k for w, k in left.items() if w not in taken and w not in J and w not in E and len(w) > 1}
    if not chat:
        table = {w: 1 for w in N if len(w) > 1}
        ends = set(N) | set(A) | set(V) | set(P)
        comp, gone = Counter(), set()
        for w, k in left.items():
            toks = greedy(w, table, 10, 0)
            names = [t[0] for t in toks]
            if any(t[3] <= 0 for t in toks[:-1]):
                continue
            if len(toks) >= 3 and names[-1] in ends:
                names = names[:-1]
            elif toks[-1][3] <= 0:
                continue
            comp[''.join(names)] += k
            gone.add(w)
        for w, k in comp.items():
            N[w] = N.get(w, 0) + k
        left = {w: k for w, k in left.items() if w not in gone}
        seen('compound_noun', len(comp))
    conf = {w for w in N if w in A or w in V or w in D}
    if chat:
        phrases = {w for w in N if len(w) > 2 and any(w[i:] in P or w[i:] in A or w[i:] in V for i in range(1, len(w)))}
        seen('noun_phrase', len(phrases))
        conf |= phrases
    out = {'Noun': {w: k for w, k in N.items() if w not in conf}, 'ConfusedNouns': {w: N[w] for w in conf}, 'Adverb': D, 'Irrecognizable': left,
           'Eomi': E, 'Josa': J, 'AdjectiveStem': AS, 'VerbStem': VS}
    for tag, tally, table, stems in (('Adjective', A, adj, AS), ('Verb', V, verb, VS)):
        out[tag] = {w: (k, sorted(table[w] if w in table else lemmas_of(w, stems, E) or ())) for w, k in tally.items()}
    return out


def run(m):
    from soynlp.pos import NewsPOSExtractor, ChatPOSExtractor
    from soynlp.normalizer import normalize_sent_for_lrgraph
    from soynlp.utils.utils import installpath
    T = Truth()

    def freq_words(p, k):
        return [x.split()[0] for x in open('%s/lemmatizer/dictionary/default/%s' % (installpath, p), encoding='utf-8') if int(x.split()[1]) >= k]
    kor = re.compile('[가-힣]+$')
    ADJ = [x for x in freq_words('Stem/Adjective.txt', 2) if kor.match(x)]
    VERB = [x for x in freq_words('Stem/Verb.txt', 2) if kor.match(x)]
    EOMI = [e for e in freq_words('Eomi/Eomi.txt', 20) if re.fullmatch('[가-힣ㄴㄹㅁㅂㅆ][가-힣]*', e)][:150]
    AS0, VS0 = set(freq_words('Stem/Adjective.txt', 2)), set(freq_words('Stem/Verb.txt', 2))
    S0, EOMI0 = AS0 | VS0, set(freq_words('Eomi/Eomi.txt', 20))
    from soynlp.lemmatizer import _conjugate_stem
    SURF = set()
    for s in S0:
        SURF |= set(_conjugate_stem(s))
    CHAT_JOSA = {x.strip() for x in open('%s/postagger/dictionary/default/Josa/josa_chat.txt' % installpath, encoding='utf-8')}
    ADV0 = {x.split()[0] for x in open('%s/postagger/dictionary/default/Adverb/adverb.txt' % installpath, encoding='utf-8')}
    ADV = sorted(ADV0)
    news = [x.strip() for x in open('/repo/tutorials/doublespace_line_corpus_sample.txt', encoding='utf-8')][:3000]
    m.require('renamed_characters', 'compounds', 'news', 'chat', 'noun', 'confused', 'adjective', 'verb', 'adverb', 'unrecognized', 'dropped', 'noun_word', 'min_eojeol',
              'compound_stem', 'eomi_extraction', 'shipped_corpus', 'shared_noun',
              'noun_and_predicate', 'predicate_compound', 'wrong_ending', 'late_lemma', 'syllable_noun', 'compound_noun', 'noun_phrase', 'learned_ending')

    def conj(rng, s=None):
        must, _ = reference(s or rng.choice(ADJ[:400] if rng.random() < .4 else VERB[:1500]), rng.choice(EOMI))
        return rng.choice(sorted(must)) if must else '하고'

    late = {}
    for s in S0:
        if len(s) > 2 and kor.match(s):
            for i in range(2, len(s)):
                if s[i:] in S0:
                    p = lemmas_of(s[:i], S0, EOMI0)
                    if p:
                        late[s] = i
    late = sorted(late.items())
    LASTS = [x for x in ADJ + VERB if x[-1] in '업닿땋' or len(x) < 4 and split(x[-1])[2] in ('ㄹ', 'ㅂ', 'ㅅ', 'ㄷ') or split(x[-1])[1:] == ('ㅡ', '')]
    EDGE = [e for e in sorted(EOMI0) if len(e) < 4 and (e[0] in 'ㄴㄹㅁㅂㅆ' or kor.match(e) and split(e[0])[0] in 'ㄴㄹㅁㅂㅇ')]
    LONE_E, FULL_E = [e for e in EDGE if e[0] in 'ㄴㄹㅁㅂㅆ'], [e for e in EDGE if kor.match(e)]

    sure = sorted(x for x in SURF if len(x) == 2 and kor.match(x))

    def compounds(rng):
        """predicates glued to predicates: the endings after one stem in proportions about the limit, stems of every class"""
        words, heads = [], []
        for _ in range(4):
            p = conj(rng)
            if len(p) > 1:
                heads.append(p)
                words += [p] * rng.choice((1, 2, 30))
        for _ in range(rng.choice((2, 5))):
            s = rng.choice([x for x in LASTS if x[-1] in '업닿땋']) if rng.random() < .3 else rng.choice(LASTS) if rng.random() < .8 else rng.choice(VERB[:800])
            p = rng.choice(heads or ['가고'])
            lone, full = rng.sample(LONE_E, 2), rng.sample(FULL_E, 2)
            one = rng.random() < .3         # the proportion exactly, by one form of each
            for e, k in zip(lone + full, rng.choice(((9, 0, 1, 0), (18, 0, 2, 0), (5, 4, 0, 1)) if one else (
                    (9, 0, 1, 0), (8, 1, 1, 0), (90, 6, 4, 0), (5, 0, 0, 0), (0, 0, 3, 2), (19, 0, 2, 0), (9, 9, 1, 1)))):
                fs = sorted(reference(s, e)[0])[:1 if one else None]
                for f in fs if k else ():
                    words += [p + f] * k + [f] * rng.choice((0, 1, 2, 25))
                    k = rng.choice((1, k))
        for N in rng.sample(text.NOUNS, 2):
            words += [N + j for j in ('은', '에서', '까지')]
        for s, i in (rng.choice([x for x in late if x[0] in AS0]), rng.choice([x for x in late if x[0] in VS0]), rng.choice(late)):
            # a stem that is also predicate + stem, the whole seen less often than its parts
            e = rng.choice(EOMI)
            for f in sorted(reference(s, e)[0])[:1]:
                words += [f] + [s[:i]] * 2 + sorted(reference(s[i:], e)[0]) * 2
        rng.shuffle(words)
        m.seen('compounds')
        return [' '.join(words[i:i + 7]) for i in range(0, len(words), 7)]

    def body(c):
        rng = c.rng
        k = rng.random()
        if k < .01:
            # more words than the progress output counts at once
            names = [text.syllable(rng) + text.syllable(rng) for _ in range(700)]
            words = [N + rng.choice(text.JOSA) for N in names] * 2 + [conj(rng) for _ in range(1500)] + [N + conj(rng) for N in names[:200]]
            rng.shuffle(words)
            sents = [' '.join(words[i:i + 6]) for i in range(0, len(words), 6)]
            m.seen('large')
        elif k < .4:
            sents = compounds(rng)
        elif k < .48:
            i = rng.randrange(len(news) - 40)
            sents = news[i:i + rng.choice((2, 5))]
            m.seen('shipped_corpus')
        elif k < .56:
            sents = real_corpus(rng, rng.choice((5, 20, 60)))
        else:
            nouns = [''.join(rng.sample(T.free, rng.choice((1, 2, 2, 3)))) for _ in range(5)] + ['학교', '사람', '음악', '나라']
            if rng.random() < .3:
                nouns.append(''.join(rng.sample(T.free, rng.choice((5, 6, 7)))))
            jo = rng.sample(sorted(T.pos_l), 6) + ['은', '는', '이', '가']
            preds = [conj(rng) for _ in range(8)]
            pool = [n + j for n in nouns for j in rng.sample(jo, 3)] + preds + rng.sample(ADV, 4) + nouns
            pool += [rng.choice(nouns) + rng.choice(preds) for _ in range(8)] + [rng.choice(preds) + rng.choice(preds) for _ in range(6)]
            pool += [rng.choice(nouns) + rng.choice(nouns) + rng.choice(jo + ['']) for _ in range(4)]
            pool += [text.eojeol(rng) for _ in range(8)]
            if rng.random() < .4:
                # an ending nobody knows, after stems and after other things
                new = ''.join(rng.sample(T.free, rng.choice((1, 2))))
                pool += [x + new for x in rng.sample(sure, 8)] + [rng.choice(T.free) + rng.choice(T.free) + new for _ in range(rng.randrange(8))]
            for _ in range(rng.choice((0, 2, 3))):
                N3 = (nouns[-1] if len(nouns[-1]) > 4 else rng.choice(rng.choice((nouns, list('감말볼'))))) + rng.choice(rng.choice((preds, jo)))
                pool += [N3 + j for j in rng.sample(jo, 5)] + [N3] * 2
            pool += [n[0] + rng.choice(preds + jo) for n in nouns[:3]] + [rng.choice('가나보말') + rng.choice(preds) for _ in range(3)]
            if rng.random() < .3:
                two = [n for n in nouns if len(n) == 2] + rng.sample([n for n in text.NOUNS if len(n) == 2], 3)
                pool += [''.join(rng.choice(two) for _ in range(k)) + rng.choice(jo + ['']) for k in (5, 6, 7, 8)] + [n + j for n in two for j in jo[:4]] * 2
                m.seen('long_compound')
            sents = [' '.join(rng.choice(pool) for _ in range(rng.randrange(1, 9))) for _ in range(rng.choice((3, 20, 60)))]
            if rng.random() < .3:
                sents += [' '.join(rng.sample(pool, 12))] * rng.choice((60, 400))
                m.seen('heavy')
        if rng.random() < .2:
            sents, _ = disguise(rng, sents)
            m.seen('renamed_characters')
        cls = rng.choice((NewsPOSExtractor, ChatPOSExtractor, ChatPOSExtractor))
        kw = {'verbose': rng.random() < .2, 'extract_eomi': rng.random() < .5, 'ensure_normalized': rng.random() < .7}
        tkw = {}
        if rng.random() < .4:
            tkw = dict(min_eojeol_frequency=rng.choice((1, 2, 3)), min_predicator_frequency=rng.choice((1, 2)),
                       min_noun_frequency=rng.choice((1, 2, 5)), min_num_of_noun_features=rng.choice((0, 1, 2)),
                       min_num_of_eomi_features=rng.choice((1, 5)), max_frequency_when_noun_is_eojeol=rng.choice((1, 5, 30)),
                       min_eomi_score=rng.choice((.1, .3, .8)), min_eomi_frequency=rng.choice((1, 3, 10)), min_noun_score=rng.choice((.1, .3, .7)))
        elif rng.random() < .2:
            tkw = dict(min_predicator_frequency=2)
        c.note(sentences=sents, extractor=cls.__name__, config=kw, train=tkw)
        pre = normalize_sent_for_lrgraph if kw['ensure_normalized'] else (lambda s: s)
        mef = tkw.get('min_eojeol_frequency', 1)
        cnt = {w: n for w, n in Counter(w for s in sents for w in pre(s).split() if len(w) <= 19).items() if n >= mef}
        if not cnt:
            return
        with contextlib.redirect_stdout(io.StringIO()):
            x = cls(**kw)
            out = x.train_extract(sents, **tkw)
        m.eq(set(out), {'Noun', 'Eomi', 'Adjective', 'AdjectiveStem', 'Verb', 'VerbStem', 'Adverb', 'Josa', 'Irrecognizable', 'ConfusedNouns'}, 'classes')
        adverbs = ADV0 | {s[:-1] + '히' for s in S0 if s[-1] == '하'}
        m.expect(set(x.adverbs) == adverbs, 'adverbs', differing=sorted(set(x.adverbs) ^ adverbs)[:10])
        noun, conf, adj, verb, adv, irr = (out[k] for k in ('Noun', 'ConfusedNouns', 'Adjective', 'Verb', 'Adverb', 'Irrecognizable'))
        josa, eomi = out['Josa'], out['Eomi']
        beg, end = Counter(), Counter()
        for w, n in cnt.items():
            for i in range(1, len(w) + 1):
                beg[w[:i]] += n
                end[w[i - 1:]] += n
        known = dict(noun)
        known.update(conf)
        for w, n in irr.items():
            m.eq(n, cnt.get(w), 'unrecognized-count', word=w)
            m.expect(not (w in known or w in adj or w in verb or w in adv or w in josa or w in eomi) and len(w) > 1, 'unrecognized-but-classified', word=w)
        m.expect(not set(noun) & set(conf), 'noun-and-confused', words=sorted(set(noun) & set(conf)))
        for w, n in noun.items():
            m.expect(not (w in adj or w in verb or w in adv), 'ambiguous-noun-not-kept-apart', word=w)
        if cls is NewsPOSExtractor:
            for w in conf:
                m.expect(w in adj or w in verb or w in adv, 'confused-without-reason', word=w)
        for w, n in known.items():
            m.expect(bool(w) and 1 <= n <= beg[w], 'noun-frequency', word=w, frequency=n, begins=beg[w])
            m.expect(w not in x.nouns or n >= cnt.get(w, 0), 'noun-misses-its-own-word', word=w, frequency=n, count=cnt.get(w))
            m.seen('shared_noun', n > cnt.get(w, 0) > 0)
        total = sum(cnt.values())
        m.expect(sum(known.values()) + sum(irr.values()) <= total, 'more-than-the-corpus', nouns=sum(known.values()), unrecognized=sum(irr.values()), total=total)
        for w, n in adv.items():
            m.eq(n, cnt.get(w), 'adverb-count', word=w)
            m.expect(w in x.adverbs, 'adverb-unknown', word=w)
        for w in cnt:
            m.expect(w not in x.adverbs or w in adv, 'adverb-missed', word=w)
        stems = set(out['AdjectiveStem']) | set(out['VerbStem'])
        for tag, got in (('Adjective', adj), ('Verb', verb)):
            m.expect(sum(p.frequency for p in got.values()) <= total, 'more-predicates-than-words', tag=tag)
            for w, p in got.items():
                m.expect(cnt.get(w, 0) <= p.frequency <= end[w] and p.frequency >= 1, 'predicate-frequency', word=w, tag=tag, frequency=p.frequency, ends=end[w], whole=cnt.get(w))
                if not m.expect(bool(p.lemma), 'no-analysis', word=w, tag=tag):
                    continue
                for s, e in p.lemma:
                    must, may = reference(s, e)
                    if w not in must and w not in may:  # a compound copies the analysis of its last part
                        must = {s[:i] + f for i in range(1, len(s)) for f in reference(s[i:], e)[0]}
                    m.expect(w in must or w in may, 'does-not-conjugate-back', word=w, stem=s, ending=e, forms=sorted(must))
                    m.expect(s in stems, 'stem-not-reported', word=w, stem=s, tag=tag)
                    m.expect(cls is ChatPOSExtractor or e in eomi, 'ending-not-reported', word=w, ending=e)
                    m.seen('compound_stem', s not in ADJ and s not in VERB)
        for w, n in cnt.items():
            if w in irr:
                continue
            ok = len(w) == 1 or w in known or w in adj or w in verb or w in adv or w in josa or w in eomi or \
                any(w[:i] in known for i in range(1, len(w)))
            m.expect(ok, 'word-lost', word=w, count=n)
            m.seen('dropped', w in josa or w in eomi or len(w) == 1)
        # the whole result, recomputed
        nouns, _ = v2_reference(cnt, T, ms=tkw.get('min_noun_score', .3), mf=tkw.get('min_noun_frequency', 1),
                                features=tkw.get('min_num_of_noun_features', 1), frequent=tkw.get('max_frequency_when_noun_is_eojeol', 30), compound=False)
        J = T.pos | T.common
        pcnt = {w: n for w, n in Counter(w for s in sents for w in normalize_sent_for_lrgraph(s).split() if len(w) <= 15).items() if n >= mef}
        N, E = bare_nouns(nouns, S0), set(EOMI0)
        if kw['extract_eomi']:
            base = {w: n for w, n in pcnt.items() if len(w) > 1 and not any(w[:i] in N for i in range(2, len(w) + 1))}
            lo, hi = endings(base, S0, N, tkw.get('min_num_of_eomi_features', 5), tkw.get('min_eomi_score', .3),
                             tkw.get('min_eomi_frequency', 1), surf=SURF)
            if set(lo) != set(hi):
                return
            m.seen('learned_ending', len(set(lo) - E))
            E |= set(lo)
        got, cut = predicates([w for w, n in pcnt.items() if n >= tkw.get('min_predicator_frequency', 1) and kor.match(w)], S0, E, N, J)
        E -= {e for e, ws in cut.endings.items() if ws}
        A0 = {w: {x for x in got[w] if not is_verb(x[0], got, VS0, AS0)} for w in got}
        V0 = {w: {x for x in got[w] if is_verb(x[0], got, VS0, AS0)} for w in got}
        A0, V0 = ({w: xs for w, xs in t.items() if xs} for t in (A0, V0))
        chat = cls is ChatPOSExtractor
        want = pipeline(cnt, nouns, A0, V0, AS0, VS0, E, CHAT_JOSA if chat else J, adverbs, chat, m.seen)
        for tag in want:
            now = {w: (p.frequency, sorted(p.lemma or ())) for w, p in out[tag].items()} if tag in ('Adjective', 'Verb') else out[tag]
            if isinstance(want[tag], set):
                m.expect(set(now) == want[tag], 'recomputed', tag=tag, extra=sorted(set(now) - want[tag])[:20], missing=sorted(want[tag] - set(now))[:20])
            else:
                m.expect(dict(now) == want[tag], 'recomputed', tag=tag,
                         differing=[(w, now.get(w), want[tag].get(w)) for w in sorted(set(now) | set(want[tag])) if now.get(w) != want[tag].get(w)][:10])
        for lab, v in (('noun', noun), ('confused', conf), ('adjective', adj), ('verb', verb), ('adverb', adv), ('unrecognized', irr)):
            m.seen(lab, len(v))
        m.seen('noun_word', len(set(known) & set(cnt)))
        m.seen('chat' if cls is ChatPOSExtractor else 'news')
        m.seen('min_eojeol', mef > 1)
        m.seen('eomi_extraction', kw['extract_eomi'])
        if known and (adj or verb or irr):
            m.nontrivial(sents, cls.__name__, sorted(kw.items()), sorted(tkw.items()))
    m.each('corpora', m.n(200, 3000), body)
