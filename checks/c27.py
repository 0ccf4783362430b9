# -*- coding: utf-8 -*-
"""C27: BaseVectorizer against an independent recount."""
import os
import shutil
import tempfile
import warnings
from collections import Counter
from mon import text

RULE = '''random document collections (tiny vocabularies for ties and repetition, Korean sentences, blank and empty documents, collections
of size 0) x tokenizers (whitespace, words with tags as tuples, characters, bigrams) x tf/df limits x stopwords; fit, transform of the fitted and of unseen
documents, file output, list/bag encodings and their decodings, save/load, refit on other documents, compared with a recount. Non-trivial:
the limits drop some but not all terms and some term occurs twice in a document; keyed by (documents, configuration).'''


def run(m):
    from soynlp.vectorizer import BaseVectorizer
    import scipy.io
    warnings.simplefilter('ignore')
    m.require('dropped', 'kept', 'repeated_in_doc', 'file', 'unseen_term', 'empty_doc', 'stopword_removed', 'max_tf', 'max_df',
              'min_df', 'reload', 'refit', 'empty_collection')
    scratch = tempfile.mkdtemp(prefix='verif_c27_')

    def dense(x):
        x = x.tocoo()
        out = {}
        for r, cc, v in zip(x.row.tolist(), x.col.tolist(), x.data.tolist()):
            out[(r, cc)] = out.get((r, cc), 0) + v
        return {k: v for k, v in out.items() if v}

    def body(c):
        rng = c.rng

        def docs_():
            n = rng.choice((0, 1, 2, 4, 10, 25))
            if rng.random() < .6:
                d = text.small_corpus(rng, n, rng.choice(('가나', 'ab', '가나다라')), rng.choice((1, 2)), rng.choice((3, 8)))
            else:
                d = [text.sentence(rng, 0, 6) for _ in range(n)]
            if d and rng.random() < .1:
                d[rng.randrange(len(d))] = rng.choice(('a "b" \'c\' , . #1 % 가"', '%%MatrixMarket 1 2 3', '"가" 가 a\\b {} {0}', 'A a ＡＢ É'))
            if d and rng.random() < .02:
                k = rng.choice((300, 1500))
                d[rng.randrange(len(d))] = ' '.join(rng.choice(('가', '가나', 'ab', '%d' % rng.randrange(k))) for _ in range(k))
                m.seen('long_document')
            return d
        docs = docs_()
        toks = {'split': lambda s: s.split(), 'chars': lambda s: [x for x in s if not x.isspace()],
                'bigrams': lambda s: [s[i:i + 2] for i in range(len(s) - 1) if not any(x.isspace() for x in s[i:i + 2])],
                'tagged': lambda s: [(w, 'T%d' % (len(w) % 2)) for w in s.split()],
                'once': lambda s: iter(s.split()), 'blank': lambda s: s.split(' '),
                'pairs': lambda s: [' '.join(s.split()[i:i + 2]) for i in range(len(s.split()) - 1)]}
        name = rng.choice(('split', 'split', 'split', 'chars', 'bigrams', 'tagged', 'once', 'blank', 'pairs'))
        tok = toks[name]
        kw = {'verbose': rng.random() < .3}
        if name != 'split' or rng.random() < .3:
            kw['tokenizer'] = tok
        if rng.random() < .5:
            kw['min_tf'] = rng.choice((1, 2, 3, 5))
        if rng.random() < .4:
            kw['max_tf'] = rng.choice((1, 2, 4, 8))
        if rng.random() < .4:
            kw['min_df'] = rng.choice((0.1, 0.25, 0.5, 0.9))
        if rng.random() < .4:
            kw['max_df'] = rng.choice((0.2, 0.5, 0.75, 1.0))
        alltok = [t for d in docs for t in tok(d)]
        stop = set()
        if rng.random() < .3:
            stop = set(rng.sample(sorted(set(alltok), key=repr), min(2, len(set(alltok))))) | {'없음'}
            kw['stopwords'] = rng.choice((stop, {s: 1 for s in stop}, sorted(stop, key=repr)))
        c.note(docs=docs, tokenizer=name, config={k: v for k, v in kw.items() if k != 'tokenizer'})
        v = BaseVectorizer(**kw)

        def want_vocab(ds):
            tf, df = Counter(), Counter()
            for d in ds:
                t = list(tok(d))
                tf.update(t)
                df.update(set(t))
            n = len(ds)
            lo, hi = int(n * kw.get('min_df', 0)), int(n * kw.get('max_df', 1.0))
            ok = {t for t in tf if kw.get('min_tf', 0) <= tf[t] <= kw.get('max_tf', 99999999) and lo <= df[t] <= hi and t not in stop}
            if ok and len(ok) < len(tf):
                m.seen('dropped')
            m.seen('kept', len(ok))
            m.seen('max_tf', any(tf[t] > kw.get('max_tf', 99999999) for t in tf))
            m.seen('max_df', any(df[t] > hi for t in tf))
            m.seen('min_df', any(df[t] < lo for t in tf))
            m.seen('stopword_removed', any(t in stop for t in tf))
            m.seen('repeated_in_doc', any(tf[t] > df[t] for t in ok))
            m.seen('empty_collection', n == 0)
            return tf, ok

        def check_vocab(vz, tf, ok):
            m.eq(set(vz.vocabulary_), ok, 'vocabulary', tf=dict(tf))
            m.eq(sorted(vz.vocabulary_.values()), list(range(len(ok))), 'index-range')
            m.eq(len(vz), len(ok), 'len')
            m.eq(list(vz.idx2vocab), sorted(vz.vocabulary_, key=vz.vocabulary_.get), 'inverse')
            m.eq(list(vz.vocabs()), list(vz.idx2vocab), 'vocabs')
            f = [tf[t] for t in vz.idx2vocab if t in tf]
            m.eq(f, sorted(f, reverse=True), 'descending', tf=dict(tf))

        def want_matrix(vz, ds):
            out = {}
            for i, d in enumerate(ds):
                for t, k in Counter(tok(d)).items():
                    if t in vz.vocabulary_:
                        out[(i, vz.vocabulary_[t])] = k
                    else:
                        m.seen('unseen_term')
                if not list(tok(d)):
                    m.seen('empty_doc')
            return out

        def check_docs(vz, ds, x=None):
            want = want_matrix(vz, ds)
            x = vz.transform(ds) if x is None else x
            m.eq(tuple(x.shape), (len(ds), len(vz)), 'shape')
            m.eq(dense(x), want, 'matrix')
            for d in ds[:6]:
                lst = vz.encode_a_doc_to_list(d)
                m.eq(vz.decode_from_list(lst), [t for t in tok(d) if t in vz.vocabulary_], 'list-roundtrip', doc=d)
                m.eq(lst, [vz.vocabulary_[t] for t in tok(d) if t in vz.vocabulary_], 'list', doc=d)
                bow = vz.encode_a_doc_to_bow(d)
                bw = Counter(t for t in tok(d) if t in vz.vocabulary_)
                m.eq(dict(bow), {vz.vocabulary_[t]: k for t, k in bw.items()}, 'bow', doc=d)
                m.eq(dict(vz.decode_from_bow(bow)), dict(bw), 'bow-roundtrip', doc=d)

        def check_file(path, ds, vz):
            with open(path, encoding='utf-8') as f:
                head, rest = f.readline(), [l.split() for l in f if not l.startswith('%')]
            m.expect(head.startswith('%%MatrixMarket matrix coordinate integer general'), 'file-header', head=head)
            want = want_matrix(vz, ds)
            m.eq([int(t) for t in rest[0]], [len(ds), len(vz), len(want)], 'file-sizes')
            m.eq(sorted((int(a) - 1, int(b) - 1, int(k)) for a, b, k in rest[1:]),
                 sorted((a, b, k) for (a, b), k in want.items()), 'file-matrix')
            if len(ds) and len(vz):
                y = scipy.io.mmread(path)
                m.eq(tuple(y.shape), (len(ds), len(vz)), 'file-shape')
                m.eq(dense(y.tocsr()), want, 'file-mmread')
            m.seen('file')

        if rng.random() < .2:
            # nothing fitted: no terms
            x0 = v.transform(docs)
            m.eq((len(v), list(v.vocabs()), tuple(x0.shape), x0.nnz, [v.encode_a_doc_to_list(d) for d in docs[:3]], v.decode_from_list([0, 1])),
                 (0, [], (len(docs), 0), 0, [[] for _ in docs[:3]], []), 'unfitted')
            m.seen('unfitted')
        frozen = list(docs)
        path = os.path.join(scratch, 'sub%d' % (c.index % 3), 'x.mtx')
        tf, ok = want_vocab(docs)
        how = rng.randrange(3)
        if how == 0:
            x = v.fit_transform(docs)
            check_vocab(v, tf, ok)
            check_docs(v, docs, x)
        elif how == 1:
            v.fit_to_file(docs, path)
            check_vocab(v, tf, ok)
            check_docs(v, docs)
            check_file(path, docs, v)
        else:
            r = v.fit(docs)
            m.expect(r is v, 'fit-returns-self')
            check_vocab(v, tf, ok)
            check_docs(v, docs)
        m.eq(docs, frozen, 'docs-modified')
        before = dict(v.vocabulary_)
        other = docs_() + [rng.choice(docs)] * 2 if docs else docs_()
        check_docs(v, other)
        if rng.random() < .4:
            if rng.random() < .2:
                # a bare file name
                here = os.getcwd()
                os.chdir(scratch)
                try:
                    path = 'bare.mtx'
                    v.to_file(other, path)
                finally:
                    os.chdir(here)
                path = os.path.join(scratch, path)
                m.seen('bare_file_name')
            else:
                v.to_file(other, path)
            check_file(path, other, v)
        m.eq(dict(v.vocabulary_), before, 'vocabulary-changed-by-use')
        n = len(v)
        m.eq(v.decode_from_list([-1, n, n + 5]), [], 'foreign-index')
        mixed = [rng.choice((-1, n, n + 1, -n - 1, rng.randrange(n) if n else -1)) for _ in range(rng.choice((3, 9, 40)))]
        mixed += mixed[-2:] + mixed[-1:] * 2
        m.eq(v.decode_from_list(mixed), [v.vocabs()[i] if isinstance(v.vocabs(), list) else list(v.vocabs())[i] for i in mixed if 0 <= i < n], 'mixed-index', indices=mixed)
        m.eq(dict(v.decode_from_bow({n: 3, -2: 1})), {}, 'foreign-index-bow')
        if name != 'tagged' and rng.random() < .5:
            fn = os.path.join(scratch, 'v%d' % (c.index % 5)) + rng.choice(('', '.vocab'))
            v.save(fn)
            kw2 = {k: kw[k] for k in kw if k in ('tokenizer', 'verbose')}
            w = BaseVectorizer(**kw2)
            w.load(fn)
            m.eq(dict(w.vocabulary_), before, 'reload-vocabulary')
            m.eq(list(w.idx2vocab), list(v.idx2vocab), 'reload-index')
            check_docs(w, other)
            m.seen('reload')
        if rng.random() < .4:
            docs2 = docs_()
            tf2, ok2 = want_vocab(docs2)
            v.fit(docs2)
            check_vocab(v, tf2, ok2)
            check_docs(v, docs2)
            m.seen('refit')
        if ok and len(ok) < len(tf):
            m.nontrivial(docs, name, sorted((k, str(x)) for k, x in kw.items() if k != 'tokenizer'))
    def large(c):
        rng = c.rng
        if c.index % 2:
            docs = ['늘 ' + ' '.join('%d' % rng.randrange(5000) for _ in range(6)) for _ in range(12000)]
        else:
            docs = ['라 ' * 20000 + '마 ' * 40000 + '가 ' * 70000 + '나 ' * 300 + '다', '나 다', ''] + ['w%d' % i for i in range(700)]
        v = BaseVectorizer(verbose=rng.random() < .5)
        path = os.path.join(scratch, 'large.mtx')
        x = v.fit_transform(docs)
        y = BaseVectorizer(verbose=False)
        y.fit_to_file(docs, path)
        cnt = [Counter(d.split()) for d in docs]
        tf = Counter()
        for k in cnt:
            tf.update(k)
        m.eq(sorted(v.vocabulary_), sorted(tf), 'large-vocabulary')
        f = [tf[t] for t in v.idx2vocab]
        m.eq(f, sorted(f, reverse=True), 'large-descending')
        want = {(i, v.vocabulary_[t]): k for i, d in enumerate(cnt) for t, k in d.items()}
        m.expect(dense(x) == want, 'large-matrix', shape=x.shape)
        with open(path, encoding='utf-8') as f:
            rest = [l.split() for l in f if not l.startswith('%')]
        m.eq([int(t) for t in rest[0]], [len(docs), len(tf), len(want)], 'large-file-sizes')
        m.expect(sorted((int(a) - 1, y.idx2vocab[int(b) - 1], int(k)) for a, b, k in rest[1:]) == sorted((a, v.idx2vocab[b], k) for (a, b), k in want.items()), 'large-file')
        v.save(path[:-4])
        w = BaseVectorizer(verbose=False)
        w.load(path[:-4])
        m.eq(dict(w.vocabulary_), dict(v.vocabulary_), 'large-reload')
        for d in docs[:3] + docs[-2:]:
            m.eq(v.decode_from_list(v.encode_a_doc_to_list(d)), d.split(), 'large-list')
            m.eq(dict(v.decode_from_bow(v.encode_a_doc_to_bow(d))), dict(Counter(d.split())), 'large-bow')
        df = Counter(t for k in cnt for t in k)
        stop = set(rng.sample(sorted(tf), len(tf) // 3))
        for kw in (dict(stopwords=stop), dict(min_tf=rng.choice(sorted(set(tf.values()))[:9])), dict(max_tf=rng.choice(sorted(set(tf.values())))),
                   dict(min_df=3 / len(docs)), dict(max_df=2 / len(docs)), dict(stopwords=stop, min_df=2 / len(docs), min_tf=2, max_tf=max(tf.values()) - 1)):
            lo, hi = (int(len(docs) * kw.get(x, d)) for x, d in (('min_df', 0), ('max_df', 1)))
            ok = {t for t in tf if t not in kw.get('stopwords', ()) and kw.get('min_tf', 0) <= tf[t] <= kw.get('max_tf', 9e9) and lo <= df[t] <= hi}
            v = BaseVectorizer(verbose=False, **kw)
            x = v.fit_transform(docs)
            m.eq(sorted(v.vocabulary_), sorted(ok), 'large-limits', limits={k: str(s)[:50] for k, s in kw.items()})
            m.expect(dense(x) == {(i, v.vocabulary_[t]): k for i, d in enumerate(cnt) for t, k in d.items() if t in ok}, 'large-limits-matrix')
            m.seen('large_limits', 0 < len(ok) < len(tf))
        m.seen('large')
    m.require('large_limits', 'large', 'long_document', 'bare_file_name', 'unfitted')
    try:
        m.each('documents', m.n(2500, 40000), body)
        m.each('large', m.n(2, 8), large)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
