# -*- coding: utf-8 -*-
"""Results of calls in a form that two processes, threads or repetitions can be compared by."""
import json


def canon(x):
    """sets and mappings as such, lists in order, floats to 8 digits, objects by type and attributes"""
    if isinstance(x, dict):
        return {'map': sorted(([canon(k), canon(v)] for k, v in x.items()), key=key)}
    if isinstance(x, (set, frozenset)):
        return {'set': sorted((canon(v) for v in x), key=key)}
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    if isinstance(x, (str, bool, type(None))):
        return x
    if isinstance(x, float):
        return 0.0 if abs(x) < 1e-12 else float('%.8g' % x)
    if isinstance(x, int):
        return x
    if hasattr(x, 'toarray'):
        x = x.toarray()
    if hasattr(x, 'tolist'):
        return canon(x.tolist())
    if hasattr(x, '__dict__'):
        return [type(x).__name__, canon(vars(x))]
    return type(x).__name__


def key(x):
    return json.dumps(x, sort_keys=True)


def differ(a, b, path=''):
    """where two results first differ: (path, a, b) or None"""
    if type(a) is not type(b):
        return path, a, b
    if isinstance(a, float):
        return None if abs(a - b) <= 1e-7 * max(1, abs(a), abs(b)) else (path, a, b)
    if isinstance(a, dict):
        if set(a) != set(b):
            return path, a, b
        for k in a:
            d = differ(a[k], b[k], path + '.' + k)
            if d:
                return d
        return None
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, path + '[%d]' % i)
            if d:
                return d
        return None if len(a) == len(b) else (path + ' length', len(a), len(b))
    return None if a == b else (path, a, b)


def empty(v):
    if isinstance(v, dict):
        return all(empty(x) for x in v.values())
    return all(empty(x) for x in v) if isinstance(v, list) else not v


def configured(rng, words):
    """-> thunk that makes an object with default or with its own configuration and queries it; nothing is shared between thunks"""
    import os
    import tempfile
    from mon import text
    from soynlp.hangle import ConvolutionHangleEncoder
    from soynlp.lemmatizer import Lemmatizer
    from soynlp.noun import LRNounExtractor, LRNounExtractor_v2
    from soynlp.postagger import (Dictionary, EojeolTemplateMatcher, LREvaluator, LRTemplateMatcher, SimpleEojeolEvaluator, SimpleTagger,
                                  UnknowLRPostprocessor)
    from soynlp.predicator import PredicatorExtractor
    from soynlp.tokenizer import LTokenizer, MaxLRScoreTokenizer, MaxScoreTokenizer
    from soynlp.utils import EojeolCounter, LRGraph
    from soynlp.vectorizer import BaseVectorizer
    from soynlp.word import WordExtractor
    ws = words(rng, 9)
    sent = ' '.join(words(rng, 3, 7))
    sents = [' '.join(words(rng, 3, 4)) for _ in range(5)]
    own = rng.random() < .5
    tags = ('Noun', 'Verb', 'Adverb', 'Josa')
    table = {t: set(words(rng, 4, 3)) for t in tags}
    sc = {w: rng.choice((.2, .5, .5, .8)) for w in ws}

    def lemmas():
        lem = Lemmatizer({'불', '붇', '걷'}, {'어', '다', '니'}, predefined={'가나': (('다', '라'),), '불어': (('마', '바'),)} if own else None)
        return [lem.candidates(w) for w in ('불어', '가나', '그래', '걸어')], [lem.lemmatize(w) for w in ('불어', '걸어')]

    def lrtagger():
        d = Dictionary(table)
        t = SimpleTagger(LRTemplateMatcher(d, *(({'Noun', 'Adverb'}, {'Noun': ('Josa',), 'Adverb': ('Verb',)}) if own else ())),
                         LREvaluator(preference={'Noun': {ws[0]: 5}, 'Verb': {ws[1]: 9}}) if own else LREvaluator(), UnknowLRPostprocessor())
        if own:
            d.add_words('Noun', ws[:3])
        return t.tag(sent)

    def eojeoltagger():
        d = Dictionary(table)
        if own:
            d.add_words('New', ws[:2], force=True)
            d.remove_words('Verb')
        g = EojeolTemplateMatcher(d, *((['New', 'Noun'], [('New', 'Josa')]) if own else ()))
        return SimpleTagger(g, SimpleEojeolEvaluator()).tag(sent), d.pos_dict, d.max_length

    def tokens():
        t = MaxLRScoreTokenizer(sc, {w: .4 for w in ws[:3]}, **({'preference_l': {ws[4]: 3}, 'preference_r': {ws[5]: 2}} if own else {}))
        e = MaxLRScoreTokenizer(preference_l={ws[6]: 1} if own else None)
        return (t.tokenize(sent), t.Dl, t.Dr, t.Pl, t.Pr, e.tokenize(sent), e.Dl,
                LTokenizer(sc if own else None).tokenize(sent), MaxScoreTokenizer(*((sc, 3, .3) if own else ())).tokenize(sent))

    def vector():
        v = BaseVectorizer(verbose=False, stopwords={ws[0], '가'} if own else None)
        v.fit(sents)
        return v.vocabulary_, v.stopwords, BaseVectorizer(verbose=False).vocabulary_

    def counters():
        c = EojeolCounter(sents, preprocess=lambda s: s.replace('가', '나')) if own else EojeolCounter(sents)
        g = LRGraph(sents=sents, l_max_length=2, r_max_length=1) if own else LRGraph(sents=sents)
        if own:
            c.remove_covered_eojeols(ws)
            g.add_eojeol(ws[0])
            g.remove_eojeol(ws[1])
        n, h = EojeolCounter(), LRGraph()
        if own:
            h.add_eojeol(ws[2])
        return c._counter, c.coverage, g._lr, g._rl, n._counter, len(n), h._lr, h._rl

    def features():
        e = LRNounExtractor_v2(verbose=False)
        if own:
            e._append_features('pos', set(ws) | {'하는', '다'})
        a = LRNounExtractor(verbose=False)
        if own:
            a.predict(ws[0], {})
        return e._pos_features, e._neg_features, e._common_features, a._noun_predictor.coefficient if hasattr(a, '_noun_predictor') else None

    def words_():
        w = WordExtractor(min_frequency=1, verbose_points=0, **({'max_left_length': 2, 'remove_subwords': False} if own else {}))
        w.train(sents)
        if own:
            w.train(sents, cumulate=True)
        return w.L, w.R, WordExtractor(verbose_points=0).L

    def predicates():
        p = PredicatorExtractor(set(ws), adjectives={'좋', ws[0]} if own else {'예쁘'}, verbs={'가'}, eomis={'다'}, verbose=False)
        return [getattr(p, a, None) for a in ('_eomis', '_adjective_stems', '_verb_stems', '_stems', '_nouns', '_josas', '_stem_surfaces')]

    def encoder():
        e = ConvolutionHangleEncoder()
        if own:
            e.jamo_to_idx['x'] = 3
        return e.encode('가 1 나'), e.jamo_to_idx, list(e.idx_to_char)

    def files():
        fd, f = tempfile.mkstemp(prefix='verif_conf_')
        os.close(fd)
        try:
            d = Dictionary({'Noun': set(ws), 'Own': set(ws[:2])} if own else table)
            d.save(f)
            e = Dictionary({'Josa': {'가'}})
            e.load(f)
            return e.pos_dict, e.max_length
        finally:
            os.unlink(f)
    return rng.choice((lemmas, lrtagger, eojeoltagger, tokens, vector, counters, features, words_, predicates, encoder, files))


def spoil(r):
    """change a result in every way its owner may"""
    if isinstance(r, (list, tuple)):
        for x in r:
            spoil(x)
        if isinstance(r, list):
            r[:] = ['x'] * (len(r) % 3)
    elif isinstance(r, dict):
        for x in r.values():
            spoil(x)
        try:
            r.clear()
            r['x'] = 1
        except TypeError:
            pass
    elif isinstance(r, set):
        r.clear()
        r.add(('x', ''))
    elif hasattr(r, 'shape') and getattr(r, 'size', 0):
        x = getattr(r, 'data', r) if hasattr(r, 'tocsr') else r
        if hasattr(x, 'flags') and x.flags.writeable and x.dtype.kind in 'fiu':
            x += 1


def _view(g, name, get, cut):
    """one side of an L-R graph: as it is kept, or by asking when it is kept otherwise"""
    if isinstance(getattr(g, name, None), dict):
        return getattr(g, name)
    parts = sorted({w[slice(*cut(i))] for w, _ in g.to_EojeolCounter().items() for i in range(len(w) + 1)})
    return {p: dict(get(p, -1)) for p in parts if get(p, -1)}


def lview(g):
    return _view(g, '_lr', g.get_r, lambda i: (0, i))


def rview(g):
    return _view(g, '_rl', g.get_l, lambda i: (i, None))


def counts(c):
    return dict(c.items())


def inner(x, *names):
    """what an object keeps under these names: None where it keeps nothing so named"""
    return [getattr(x, n, None) for n in names]
