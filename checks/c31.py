# -*- coding: utf-8 -*-
"""C31: similarity search against a direct cosine ranking; reproducible SVD."""
import math
import numpy as np
import scipy.sparse as sp

RULE = '''random dense and sparse matrices (duplicate, negated, scaled and zero rows, one row) x query items (known, unknown) x limits; similarities
recomputed in plain Python, order and completeness judged with a 1e-7 tolerance so ties may come in any order. SVD of random matrices with a
fixed seed: repeatability, shapes, orthonormality, singular values against a full decomposition when the rank allows. Non-trivial: the limit cuts
the list; keyed by (matrix, query, limit).'''


def run(m):
    from soynlp.utils import most_similar, svd
    m.require('limited', 'unlimited', 'tie_with_query', 'zero_row', 'unknown', 'sparse', 'dense', 'svd', 'svd_narrow')

    def body(c):
        rng = c.rng
        n, d = rng.choice((1, 2, 3, 6, 15, 40)), rng.choice((1, 2, 3, 8))
        if rng.random() < .01:
            n = rng.choice((300, 700, 1500))
        rows = [[rng.choice((0, 0, 1, 1, 2, -1, 3, .5)) if n < 300 else rng.gauss(0, 1) for _ in range(d)] for _ in range(n)]
        for _ in range(rng.randrange(0, 4)):
            i, j = rng.randrange(n), rng.randrange(n)
            f = rng.choice((1, 1, 2, -1, 0, .1))
            rows[i] = [f * x for x in rows[j]]
        V = np.array(rows, dtype=float)
        kind = rng.choice(('dense', 'csr', 'csc', 'lil'))
        vec = V if kind == 'dense' else getattr(sp, kind + '_matrix')(V)
        if kind == 'csc':
            vec = vec.tocsr()
        items = ['w%d' % i for i in range(n)]
        rng.shuffle(items)
        idx = {w: i for i, w in enumerate(items)}
        q = rng.randrange(n)
        k = rng.choice((1, 1, 2, 3, 5, 10, 100, -1, -1))
        c.note(matrix=rows, kind=kind, query=q, topk=k)
        kw = {'topk': k}
        if k == 10 and rng.random() < .5:
            kw = {}
        m.eq(list(most_similar('모르는 말', vec, idx, items, **kw)), [], 'unknown-query')
        m.seen('unknown')
        got = most_similar(items[q], vec, idx, items, **kw)
        m.expect(np.array_equal(V, np.array(rows, dtype=float)), 'vectors-modified')

        def cos(a, b):
            na, nb = math.sqrt(sum(x * x for x in a)), math.sqrt(sum(x * x for x in b))
            return 0.0 if na == 0 or nb == 0 else sum(x * y for x, y in zip(a, b)) / na / nb
        sim = {w: cos(rows[q], rows[i]) for w, i in idx.items() if i != q}
        m.expect(items[q] not in [w for w, _ in got], 'query-returned', got=got)
        m.eq(len(got), len(sim) if k < 0 else min(k, len(sim)), 'number', got=got)
        m.eq(len({w for w, _ in got}), len(got), 'repeated-item', got=got)
        for w, s in got:
            if m.expect(w in sim, 'foreign-item', item=w):
                m.expect(abs(s - sim[w]) < 1e-7, 'similarity', item=w, got=float(s), want=sim[w])
        m.expect(all(a[1] >= b[1] - 1e-7 for a, b in zip(got, got[1:])), 'order', got=got)
        left = set(sim) - {w for w, _ in got}
        if got and left:
            m.expect(max(sim[w] for w in left) <= min(s for _, s in got) + 1e-7, 'better-item-omitted', got=got)
            m.seen('limited')
            m.nontrivial(rows, q, k)
        m.seen('unlimited', k < 0 and n > 1)
        m.seen('tie_with_query', any(s > 1 - 1e-9 for s in sim.values()))
        m.seen('zero_row', not any(rows[q]) or any(not any(r) for r in rows))
        m.seen('dense' if kind == 'dense' else 'sparse')
    m.each('similar', m.n(3000, 60000), body)

    def body_svd(c):
        rng = c.rng
        n, d = (rng.randrange(30, 70), rng.randrange(25, 50)) if rng.random() < .3 else (rng.randrange(3, 30), rng.randrange(3, 20))
        if rng.random() < .04:
            n, d = rng.choice(((40, 320), (320, 40), (110, 130)))
        k = rng.randrange(1, min(n, d - 1) + 1)
        seed = rng.choice((0, 0, 1, rng.randrange(1000), rng.randrange(1000, 10 ** 6), 2 ** 31 + rng.randrange(1000)))
        V = np.array([[rng.choice((0, 0, 1, 2, 5)) for _ in range(d)] for _ in range(n)], dtype=float)
        if rng.random() < .3:
            V[:, :2] = 0
        X = sp.csr_matrix(V) if rng.random() < .6 else V
        it = rng.choice((None, 0, 1, 2, 5, 10, 60))
        if max(n, d) > 100:
            it, k = 60, rng.randrange(1, 12)
        kw = {} if it is None else {'n_iter': it}
        c.note(matrix=V.tolist(), n_components=k, seed=seed, **kw)
        U, S, VT = svd(X, k, random_state=seed, **kw)
        np.random.seed(rng.randrange(10 ** 6))    # the global generator must not matter
        U2, S2, VT2 = svd(X, n_components=k, random_state=seed, **kw)
        m.expect(np.array_equal(U, U2) and np.array_equal(S, S2) and np.array_equal(VT, VT2), 'svd-reproducible')
        U3, S3, VT3 = svd(X, k, random_state=np.random.RandomState(seed), **kw)
        m.expect(np.array_equal(U, U3) and np.array_equal(S, S3) and np.array_equal(VT, VT3), 'svd-seed-object')
        m.eq((U.shape, S.shape, VT.shape), ((n, k), (k,), (k, d)), 'svd-shape')
        m.expect((S >= -1e-9).all() and (np.diff(S) <= 1e-9).all(), 'svd-values-order', values=S.tolist())
        full = np.linalg.svd(V, compute_uv=False)
        m.expect((S <= full[:k] + 1e-6 * (1 + full[0])).all(), 'svd-too-large', values=S.tolist(), full=full.tolist())
        # the oversampled range covers everything here, so the result is the exact truncated decomposition
        if k + 10 >= min(n, d):
            m.expect(np.allclose(S, full[:k], atol=1e-6 * (1 + full[0])), 'svd-values', values=S.tolist(), full=full.tolist())
            best = math.sqrt(float((full[k:] ** 2).sum()))
            err = float(np.linalg.norm(V - U @ np.diag(S) @ VT))
            m.expect(abs(err - best) < 1e-5 * (1 + full[0]), 'svd-reconstruction', error=err, best=best)
        if it == 60:
            # enough power iterations: the leading values are the true ones even when the sketch is narrower than the matrix
            m.expect(np.allclose(S, full[:k], rtol=.002, atol=1e-6 * (1 + full[0])), 'svd-iterations', values=S.tolist(), full=full.tolist())
            m.seen('svd_narrow', k + 10 < min(n, d))
        m.seen('svd')
        m.nontrivial(V.tolist(), k, seed)
        for bad in (d, d + 3):
            try:
                svd(X, bad, random_state=seed)
                m.expect(False, 'svd-too-many-accepted', n_components=bad, shape=V.shape)
            except ValueError:
                m.decisions += 1
    m.each('svd', m.n(120, 1500), body_svd)
