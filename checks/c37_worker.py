# -*- coding: utf-8 -*-
"""One process of C37: runs the cases of every component and writes what each returned.

usage: c37_worker.py CONFIG.json   (keys: verif, repo, seed, counts, out, save, load, order, globals, observe)
Inputs are made from lists in a fixed order, so they are the same in every process.
"""
import io
import json
import os
import random
import sys

with open(sys.argv[1], encoding='utf-8') as f:
    CFG = json.load(f)
sys.path.insert(0, CFG['repo'])
sys.path.insert(0, CFG['verif'])
import warnings  # noqa: E402
warnings.simplefilter('ignore')
from mon import text  # noqa: E402
from mon.core import LineObserver  # noqa: E402
from mon.canon import canon, configured, counts, inner, lview, rview  # noqa: E402
from checks.nounlib import real_corpus, tiny_corpus  # noqa: E402

OBS = LineObserver(CFG['repo'])
if CFG.get('observe'):
    OBS.start()
real_out = sys.stdout
sys.stdout = io.StringIO()

import numpy as np  # noqa: E402
from soynlp.hangle import (normalize, decompose, compose, levenshtein, jamo_levenshtein, cosine_distance,  # noqa: E402
                           jaccard_distance, ConvolutionHangleEncoder)
from soynlp.normalizer import (emoticon_normalize, repeat_normalize, only_hangle, only_hangle_number, only_text,  # noqa: E402
                               remove_doublespace)
from soynlp.tokenizer import LTokenizer, MaxScoreTokenizer, MaxLRScoreTokenizer, NounMatchTokenizer, RegexTokenizer  # noqa: E402
from soynlp.tokenizer._noun_tokenizer import NounLMatchTokenizer  # noqa: E402
from soynlp.tokenizer._tokenizer_builder import EojeolPatternTrainer  # noqa: E402
from soynlp.utils import (DoublespaceLineCorpus, EojeolCounter, LRGraph, most_similar, sort_by_alphabet)  # noqa: E402
from soynlp.word import WordExtractor, pmi  # noqa: E402
from soynlp.word._phrase import Bigram  # noqa: E402
from soynlp.noun import LRNounExtractor, LRNounExtractor_v2, NewsNounExtractor  # noqa: E402
from soynlp.vectorizer import BaseVectorizer, sent_to_word_contexts_matrix  # noqa: E402
from soynlp.postagger import (SimpleTagger, LRTemplateMatcher, EojeolTemplateMatcher, LREvaluator,  # noqa: E402
                              SimpleEojeolEvaluator, UnknowLRPostprocessor, Dictionary)
from soynlp.predicator import PredicatorExtractor, EomiExtractor  # noqa: E402
from soynlp.pos import NewsPOSExtractor, ChatPOSExtractor  # noqa: E402
from soynlp.pos._adverb import load_default_adverbs, stem_to_adverb  # noqa: E402
from soynlp.lemmatizer import Lemmatizer, conjugate, conjugate_chat, lemma_candidate, lemma_candidate_chat  # noqa: E402

AB = '가나다라'


def tie(rng):
    return rng.choice((.1, .5, .5, .5, .9))


def words(rng, k, mx=4, ab=AB):
    return [text.small_words(rng, ab, mx) for _ in range(k)]


def corpus(rng):
    make = rng.choice((real_corpus, tiny_corpus, tiny_corpus,
                       lambda r, n: text.small_corpus(r, n, r.choice(('이가은는', '하다고', '의에서로은')))))
    return make(rng, rng.choice((20, 60, 150)))


def predicates(rng):
    ends = [e for e in text.ENDS if not e.startswith('ㅂ')]
    out = []
    for _ in range(rng.choice((15, 40))):
        ws = []
        for _ in range(rng.randrange(1, 7)):
            k = rng.random()
            if k < .4:
                ws.append(rng.choice(text.NOUNS) + rng.choice(text.JOSA))
            elif k < .8:
                ws.append(rng.choice(sorted(conjugate(rng.choice(text.VERBS), rng.choice(ends))) or ['가']))
            else:
                ws.append(rng.choice(text.NOUNS) + '하' + rng.choice(ends))
        out.append(' '.join(ws))
    return out


class Files:
    """write under our own folder, read our own file and the one another process wrote"""

    def __init__(self, name):
        self.own = os.path.join(CFG['save'], name)
        self.other = os.path.join(CFG['load'], name) if CFG.get('load') else self.own
        os.makedirs(self.own, exist_ok=True)

    def path(self, f):
        return os.path.join(self.own, f)

    def both(self, f):
        return [os.path.join(self.own, f), os.path.join(self.other, f)]


COMPONENTS = {}


def case(f):
    COMPONENTS[f.__name__] = f
    return f


@case
def characters(rng, files):
    s, t = text.hostile(rng, 12), text.hostile(rng, 12)
    out = [normalize(s, english=True, number=True, punctuation=True), emoticon_normalize(s, 2), repeat_normalize(s, 2),
           only_hangle(s), only_hangle_number(s), only_text(s), remove_doublespace(s), RegexTokenizer().tokenize(s),
           [decompose(c) for c in s], levenshtein(s, t), jamo_levenshtein(s, t)]
    if s.strip() and t.strip():
        out += [cosine_distance(s, t), jaccard_distance(s, t)]
    e = ConvolutionHangleEncoder()
    return out, e.encode(only_hangle_number(s)), e.onehot_to_sent(e.sent_to_onehot(only_hangle_number(s)))


@case
def maxlr(rng, files):
    L, R = words(rng, 8), words(rng, 5, 3)
    if rng.random() < .5:
        L, R = {w: tie(rng) for w in L}, {w: tie(rng) for w in R}
    else:
        L, R = set(L), set(R)
    s = ' '.join(words(rng, 4, 9))
    return MaxLRScoreTokenizer(L, R).tokenize(s, flatten=False)


@case
def scored(rng, files):
    sc = {x: tie(rng) for x in words(rng, 8)}
    s = ' '.join(words(rng, 4, 9))
    return MaxScoreTokenizer(sc).tokenize(s, flatten=False), [LTokenizer(sc).tokenize(s, tolerance=t) for t in (0, .4)]


@case
def nounmatch(rng, files):
    s = {x: tie(rng) for x in words(rng, 8)}
    t = ' '.join(words(rng, 4, 9))
    return ([NounMatchTokenizer(s).tokenize(t, flatten=f, compose_compound=c) for f in (0, 1) for c in (0, 1)],
            NounLMatchTokenizer(s).tokenize(t))


@case
def wordscores(rng, files):
    w = WordExtractor(min_frequency=rng.choice((1, 2)), verbose_points=0, remove_subwords=rng.random() < .5, min_cohesion_forward=0)
    w.train(text.small_corpus(rng, 20, AB))
    w.save(files.path('w'))
    out = [w.extract(), w.word_scores(), w.all_accessor_variety()]
    for p in files.both('w'):
        v = WordExtractor(min_frequency=1, verbose_points=0)
        v.load(p)
        out.append([v.L, v.R, v.word_scores()])
    return out


@case
def bigram(rng, files):
    b = Bigram(min_frequency=1, verbose=False, score=rng.choice(('frequency', 'pmi', 'mikolov')))
    b.train(text.small_corpus(rng, 20, AB, 2))
    return b.extract(topk=5, threshold=-9)


@case
def vectors(rng, files):
    s = text.small_corpus(rng, 20, AB, 2, minw=1)
    v = BaseVectorizer(verbose=False, stopwords=set('가'))
    x = v.fit_transform(s)
    v.save(files.path('v'))
    v.to_file(s, files.path('x'))
    out = [v.vocabulary_, x]
    for p in files.both('v'):
        u = BaseVectorizer(verbose=False)
        u.load(p)
        out.append(u.vocabulary_)
    return out + [open(p, encoding='utf-8').read() for p in files.both('x')]


@case
def contexts(rng, files):
    s = text.small_corpus(rng, 20, AB, 2, minw=1)
    x, words_ = sent_to_word_contexts_matrix(s, windows=rng.choice((1, 2)), min_tf=1, dynamic_weight=rng.random() < .5, verbose=False)
    if not x.nnz:
        return x, words_
    p = pmi(x, min_pmi=0)
    p = p[0] if isinstance(p, tuple) else p
    return x, words_, p, sorted([w, round(float(d), 6)] for w, d in most_similar(words_[0], x, {w: i for i, w in enumerate(words_)}, words_))


@case
def graphs(rng, files):
    s, t = text.small_corpus(rng, 10, AB), text.small_corpus(rng, 10, AB)
    g, e = LRGraph(sents=s), EojeolCounter(t)
    out = [[(w, g.get_l(w, 3), g.get_r(w, 3)) for w in AB], lview(e.to_lrgraph())]
    g.save(files.path('g'))
    e.save(files.path('e'))
    for p in files.both('g'):
        h = LRGraph()
        h.load(p)
        out.append([lview(h), rview(h), [(w, h.get_l(w, 3), h.get_r(w, 3)) for w in AB]])
    for p in files.both('e'):
        f = EojeolCounter()
        f.load(p)
        out.append([counts(f), f.num_of_uncovered_eojeols, lview(f.to_lrgraph())])
    return out


@case
def linecorpus(rng, files):
    docs = ['  '.join(text.eojeol(rng) + ' ' + text.eojeol(rng) for _ in range(rng.randrange(1, 4))) for _ in range(rng.randrange(1, 8))]
    with open(files.path('c'), 'w', encoding='utf-8') as f:
        f.write('\n'.join(docs) + '\n')
    out, k = [], rng.choice((-1, 1, 3))
    for p in files.both('c'):
        for it in (False, True):
            c = DoublespaceLineCorpus(p, num_doc=k, iter_sent=it)
            out.append([len(c), list(c)])
    lines = files.path('l')
    with open(lines, 'w', encoding='utf-8') as f:
        f.write('\n'.join(docs) + '\n')
    sort_by_alphabet(lines)
    return out, open(lines, encoding='utf-8').read()


@case
def patterns(rng, files):
    t = EojeolPatternTrainer(max_left_length=3, max_right_length=2, min_frequency=rng.choice((1, 2)), verbose=False)
    t.train(text.small_corpus(rng, 45, AB))
    t.save(files.path('t'))
    out = [t.lrgraph, t.rlgraph]
    for p in files.both('t'):
        u = EojeolPatternTrainer(verbose=False)
        u.load(p)
        out.append([u.lrgraph, u.rlgraph])
    return out


@case
def nouns(rng, files):
    e = LRNounExtractor_v2(verbose=False, min_num_of_features=1, extract_pos_feature=rng.random() < .4, extract_determiner=rng.random() < .4)
    n = e.train_extract(corpus(rng))
    return n, lview(e.lrgraph), inner(e, '_compounds_components', '_pos_features', '_common_features'), e.decompose_compound(''.join(sorted(n)[:2]))


@case
def nouns_v1(rng, files):
    return LRNounExtractor(verbose=False).train_extract(corpus(rng), min_noun_frequency=2)


@case
def nouns_news(rng, files):
    return NewsNounExtractor(verbose=False).train_extract(corpus(rng))


@case
def tagged(rng, files):
    tags = ['Noun', 'Verb', 'Adjective', 'Adverb', 'Exclamation', 'Josa']
    d = Dictionary({t: set(words(rng, rng.choice((4, 9)), 3, '가나')) for t in tags})
    s = ' '.join(words(rng, 3, 7, '가나'))
    return (SimpleTagger(LRTemplateMatcher(d), LREvaluator(), UnknowLRPostprocessor()).tag(s),
            SimpleTagger(LRTemplateMatcher(d), LREvaluator()).tag(s),
            SimpleTagger(EojeolTemplateMatcher(d), SimpleEojeolEvaluator()).tag(s))


@case
def dictionaries(rng, files):
    d = Dictionary({t: set(words(rng, 5)) for t in ('Noun', 'Verb', 'Josa')})
    d.add_words('Noun', words(rng, 2))
    d.remove_words('Verb', words(rng, 2))
    d.save(files.path('d'))
    out = [d.pos_dict]
    for p in files.both('d'):
        e = Dictionary({})
        e.load(p)
        out.append([e.pos_dict, e.max_length, [sorted(e.get_pos(w)) for w in AB]])
    return out


@case
def predicators(rng, files):
    known = set(rng.sample(text.NOUNS, 5))
    p = PredicatorExtractor(known, adjectives={'예쁘', '좋', '많', '없', '크', '작'}, verbs={'가', '먹', '보', '오', '만들', '읽', '쓰', '듣', '하', '크'},
                            eomis={e for e in text.ENDS if 'ㅂ' not in e}, extract_eomi=rng.random() < .6, extract_stem=rng.random() < .6, verbose=False)
    r = p.train_extract(predicates(rng) * 2, min_eojeol_frequency=1, min_predicator_frequency=1, min_num_of_features=1, min_eomi_score=.1,
                        min_eomi_frequency=1, min_num_of_unique_R_char=1, min_entropy_of_R_char=0, min_entropy_of_R=0, min_stem_score=.1,
                        min_stem_frequency=1)
    return r, inner(p, '_eomis', '_stems', '_adjective_stems', '_verb_stems')


@case
def pos(rng, files):
    e = rng.choice((NewsPOSExtractor, ChatPOSExtractor))(verbose=False, extract_eomi=False)
    return e.train_extract(predicates(rng))


@case
def lemmas(rng, files):
    ends = {e for e in text.ENDS} | {'어', '으니'}
    lem = Lemmatizer(set(text.VERBS) | {'들', '듣', '걷', '걸', '물', '묻', '부르', '부', '이르', '이'}, ends)
    w, e = rng.choice(text.VERBS + ['듣', '걷', '묻']), rng.choice([x for x in text.ENDS])
    forms = sorted(conjugate(w, e))
    a, b = rng.choice(forms or ['가']), rng.choice(('', '서', '는', '다'))
    return (forms, conjugate_chat(w, e), [lem.lemmatize(x) for x in forms], [lem.candidates(x) for x in forms],
            lemma_candidate(a, b), lemma_candidate_chat(a, b))


@case
def configurations(rng, files):
    return configured(rng, words)()


@case
def adverbs(rng, files):
    return load_default_adverbs(), [stem_to_adverb(w) for w in rng.sample(text.VERBS, 5)]


def main():
    if CFG.get('globals') is not None:
        random.seed(CFG['globals'])
        np.random.seed(CFG['globals'])
    jobs = [(n, i) for n in COMPONENTS for i in range(CFG['start'].get(n, CFG['start']['*']),
                                                      CFG['start'].get(n, CFG['start']['*']) + CFG['counts'].get(n, CFG['counts']['*']))]
    if CFG.get('only'):
        jobs = [j for j in jobs if list(j) in CFG['only']]
    if CFG.get('order') == 'reversed':
        jobs.reverse()
    elif CFG.get('order') == 'shuffled':
        random.Random(repr((CFG['seed'], len(jobs)))).shuffle(jobs)
    rounds = 2 if CFG.get('twice') else 1
    out = {}
    for _ in range(rounds):
        for n, i in jobs:
            rng = random.Random('%d/%s/%d' % (CFG['seed'], n, i))
            try:
                v = canon(COMPONENTS[n](rng, Files('%s_%d' % (n, i))))
            except Exception as e:
                tb = e.__traceback__
                while tb.tb_next:
                    tb = tb.tb_next
                v = ['raised', type(e).__name__, str(e)[:200] if not isinstance(e, (KeyError, UnicodeError)) else '',
                     'own' if os.path.realpath(tb.tb_frame.f_code.co_filename) == os.path.realpath(__file__) else 'library']
            out.setdefault('%s/%d' % (n, i), []).append(v)
    OBS.stop()
    with open(CFG['out'], 'w', encoding='ascii') as f:
        json.dump({'results': out, 'lines': {k: sorted(v) for k, v in OBS.hit.items()}, 'optimized': not __debug__,
                   'encoding': __import__('locale').getpreferredencoding(False), 'hash': hash('가나다')}, f)


main()
