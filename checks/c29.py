# -*- coding: utf-8 -*-
"""C29: PMI against a dense recomputation from the definition."""
import math
import numpy as np
import scipy.sparse as sp

RULE = '''random non-negative sparse count matrices (rectangular, empty rows/columns, explicitly stored zeros, duplicate unsorted entries,
float counts, skewed counts) x alpha x beta x minimum (0, negative, positive, very low) x caller-supplied context distribution; every cell and
both marginals recomputed in plain Python. Cells within 1e-9 of the minimum are not judged. Non-trivial: some positive cells pass the
minimum and some do not; keyed by (matrix, options).'''


def run(m):
    from soynlp.word import pmi as pmi1
    from soynlp.word._pmi import pmi_memory_friendly as pmi2
    m.require('kept', 'below_minimum', 'stored_zero', 'empty_row', 'empty_col', 'own_py', 'beta', 'alpha', 'negative_kept', 'cell_by_cell', 'equal_to_minimum')

    def body(c):
        rng = c.rng
        n, k = rng.choice((1, 2, 3, 5, 9)), rng.choice((1, 2, 3, 5, 9))
        if rng.random() < .3:
            k = n
        dens = rng.choice((.2, .5, 1))
        if rng.random() < .012:
            n, k, dens = rng.choice((1, 20, 60, 130)), rng.choice((30, 70, 130)), rng.choice((.05, .3))
            m.seen('large')
        huge = rng.random() < .1
        D = [[0.0] * k for _ in range(n)]
        trip = []
        for i in range(n):
            for j in range(k):
                if rng.random() < dens:
                    v = rng.choice((1, 1, 2, 3, 10, 100, 0.5, 7.25))
                    if huge and rng.random() < .4:
                        v = rng.choice((2 ** 24 + 1, 2 ** 31 - 1, 10 ** 6 + 3, 10 ** 10 + 7))
                    trip.append((i, j, v))
                    D[i][j] += v
                elif rng.random() < .15:
                    trip.append((i, j, 0))
                    m.seen('stored_zero')
        if rng.random() < .3:
            i = rng.randrange(n)
            trip = [t for t in trip if t[0] != i]
            D[i] = [0.0] * k
        if rng.random() < .3:
            j = rng.randrange(k)
            trip = [t for t in trip if t[1] != j]
            for r in D:
                r[j] = 0.0
        if sum(map(sum, D)) == 0:
            trip.append((0, 0, 4))
            D[0][0] = 4.0
        rng.shuffle(trip)
        ints = all(float(t[2]).is_integer() for t in trip) and rng.random() < .7
        # csr straight from the entry lists keeps stored zeros and entry order
        indptr, indices, data = [0], [], []
        for i in range(n):
            for t in trip:
                if t[0] == i:
                    indices.append(t[1])
                    data.append(t[2])
            indptr.append(len(indices))
        X = sp.csr_matrix((np.array(data, dtype=int if ints else float), indices, indptr), shape=(n, k))
        if rng.random() < .2:
            X = X.tocsc()
        alpha = rng.choice((0.0, 0.0, 0.001, .1))
        beta = rng.choice((1, 1, 1.0, .75, .5, .995, .05))
        mn = rng.choice((0, 0, 0, -1, -1000, -.3, .5, 2, math.log(2), .005, -.005, -14, 8))
        own = None
        if rng.random() < .3:
            w = [rng.random() + .01 for _ in range(k)]
            own = np.asarray([[x / sum(w) for x in w]])
            if rng.random() < .3:
                own *= rng.choice((.3, .6))     # the contexts are some of those of a larger vocabulary
        c.note(matrix=D, entries=trip, alpha=alpha, beta=beta, min_pmi=mn, py=None if own is None else own.tolist())
        kw = dict(min_pmi=mn, alpha=alpha, beta=beta)
        if mn == 0 and rng.random() < .5:
            kw.pop('min_pmi')
        if alpha == 0 and rng.random() < .5:
            kw.pop('alpha')
        if beta == 1 and rng.random() < .5:
            kw.pop('beta')
        if own is not None:
            kw['py'] = own.copy()
        X0 = X.copy()
        given = kw.get('py')
        slow = rng.random() < .35
        pmi = pmi2 if slow else pmi1
        m.seen('cell_by_cell', slow)
        c.note(function=pmi.__name__)
        with np.errstate(all='ignore'):
            R, px, py = pmi(X, **kw)
        m.expect((X != X0).nnz == 0 and X.dtype == X0.dtype, 'input-modified')
        if own is not None:
            m.expect((given == own).all(), 'py-modified')
        tot = sum(map(sum, D))
        rx = [sum(r) / tot for r in D]
        cy = [sum(r[j] for r in D) / tot for j in range(k)] if own is None else own[0].tolist()
        if beta < 1:
            p = [v ** beta for v in cy]
            cy = [v / sum(p) for v in p]
        gx, gy = np.asarray(px).reshape(-1).tolist(), np.asarray(py).reshape(-1).tolist()
        m.eq((len(gx), len(gy)), (n, k), 'marginal-shape')
        for a, b in zip(gx, rx):
            m.close(a, b, 'px')
        for a, b in zip(gy, cy):
            m.close(a, b, 'py')
        m.eq(tuple(R.shape), (n, k), 'shape')
        got = {}
        y = R.tocoo()
        for r, cc, v in zip(y.row.tolist(), y.col.tolist(), y.data.tolist()):
            m.expect((r, cc) not in got, 'duplicate-cell', cell=(r, cc))
            got[(r, cc)] = v
        some = [0, 0]
        for i in range(n):
            for j in range(k):
                g = got.pop((i, j), None)
                if D[i][j] == 0:
                    m.expect(g is None, 'value-without-count', cell=(i, j), got=g)
                    continue
                want = math.log(D[i][j] / tot / (rx[i] * (cy[j] + alpha)))
                if abs(want - mn) < 1e-9 or slow and abs(want) < 1e-9:     # the second form does not store zeros
                    m.expect(g is None or abs(g - want) < 1e-8, 'pmi-value', cell=(i, j), got=g, want=want)
                    continue
                if want < mn:
                    m.expect(g is None, 'below-minimum-kept', cell=(i, j), got=g, want=want)
                    some[0] = 1
                    m.seen('below_minimum')
                else:
                    if m.expect(g is not None, 'cell-missing', cell=(i, j), want=want):
                        m.close(g, want, 'pmi-value', cell=(i, j), tol=1e-8)
                    some[1] = 1
                    m.seen('kept')
                    m.seen('negative_kept', want < 0)
        m.seen('empty_row', any(v == 0 for v in rx))
        m.seen('empty_col', any(not any(r[j] for r in D) for j in range(k)))
        m.seen('own_py', own is not None)
        m.seen('beta', beta < 1)
        m.seen('alpha', alpha > 0)
        if all(some):
            m.nontrivial(D, trip, alpha, beta, mn, own is None, slow)
    def exact(c):
        """powers of two throughout: values equal to the minimum, or to 0, without rounding"""
        rng = c.rng
        k = rng.choice((1, 2, 3))
        n = 2 ** k
        D = [[0] * n for _ in range(n)]
        for b in range(0, n, 2):
            for i in (0, 1):
                for j in (0, 1):
                    D[b + i][b + j] = 4            # uniform blocks: p(x, y) / (p(x) p(y)) = n / 2
        if rng.random() < .5:
            D = [[8 if i == j else 0 for j in range(n)] for i in range(n)]
        perm = rng.sample(range(n), n)
        D = [D[i] for i in perm]
        ratio = n / 2 if any(v == 4 for r in D for v in r) else n
        at = math.log(ratio)
        if np.exp(at) != ratio:
            return
        c.note(matrix=D, min_pmi=at, value=at)
        for f in (pmi1, pmi2):
            got = {}
            y = f(sp.csr_matrix(np.array(D)), min_pmi=at)[0].tocoo()
            for r, cc, v in zip(y.row.tolist(), y.col.tolist(), y.data.tolist()):
                got[(r, cc)] = v
            for i in range(n):
                for j in range(n):
                    if at:
                        m.expect(((i, j) in got) == bool(D[i][j]), 'value-equal-to-minimum', function=f.__name__, cell=(i, j), got=got.get((i, j)))
                    else:
                        m.expect(got.get((i, j), 0) == 0, 'value-equal-to-minimum', function=f.__name__, cell=(i, j), got=got.get((i, j)))
        m.seen('equal_to_minimum', at > 0)
        m.nontrivial('exact', D)
    m.each('exact', m.n(60, 1000), exact)
    m.each('matrices', m.n(3000, 60000), body)
