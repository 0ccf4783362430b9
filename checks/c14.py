# -*- coding: utf-8 -*-
"""C14: LRGraph history monitor (both views against a pair-count model after every operation)."""
import copy
from collections import defaultdict
from mon import text

RULE = '''random graphs (from dicts, default-dicts, sentences with length limits, or empty) and random histories of add/remove pair or
word with counts 1..4 (over-removal, unknown pairs), reset, freeze, copy, rankings; after each operation every pair of the universe is
queried from both sides. Non-trivial: a history in which some pair vanished and some pair was added; keyed by (graph, history).'''


def splits(w):
    return [(w[:i], w[i:]) for i in range(1, len(w) + 1)]


def run(m):
    from soynlp.utils import LRGraph
    m.require('sents', 'dict', 'defaultdict', 'empty', 'reset_after_edit', 'vanished', 'over_removed', 'new_pair', 'truncated', 'freeze', 'copy', 'wide', 'star')

    def body(c):
        rng = c.rng
        al = rng.choice(('가', '가나', '가나다', '가나다라'))
        far = rng.random() < .05    # long words, and parts with more partners than the default ranking shows
        if far:
            al = '가나다라마바사아자차카타파하거너더러머버'
        w_ = lambda k=5: text.small_words(rng, al, rng.choice((1, 2, 2, 2, 25)) if far else k)
        form = rng.choice(('sents', 'dict', 'defaultdict', 'empty'))
        lmax, rmax = rng.choice(((10, 9), (10, 9), (2, 1), (3, 2), (2, 4)))
        m.seen(form)
        lim = {} if (lmax, rmax) == (10, 9) and rng.random() < .5 else dict(l_max_length=lmax, r_max_length=rmax)
        model = {}
        source = None
        if form == 'sents':
            sents = [' '.join(w_(7) for _ in range(60 if far else rng.randrange(0, 6))) for _ in range(rng.randrange(1, 5))]
            for s in sents:
                for w in s.split():
                    for l, r in splits(w):
                        if len(l) <= lmax and len(r) <= rmax:
                            model[l, r] = model.get((l, r), 0) + 1
            source = sents
            g = LRGraph(sents=sents, **lim)
        elif form == 'empty':
            g = LRGraph(**lim)
        else:
            d = {} if form == 'dict' else defaultdict(lambda: defaultdict(int))
            for _ in range(150 if far else rng.randrange(1, 12)):
                w = w_()
                w = '가' + w if far and rng.random() < .3 else w + '는' if far and rng.random() < .5 else w
                i = rng.randrange(1, len(w) + 1)
                n = rng.randrange(1, 5) if rng.random() < .9 else rng.randrange(5, 20000)
                model[w[:i], w[i:]] = n
                d.setdefault(w[:i], {} if form == 'dict' else defaultdict(int))[w[i:]] = n
            source = d
            g = LRGraph(d, **lim)
        frozen = copy.deepcopy({k: dict(v) for k, v in source.items()}) if isinstance(source, dict) else copy.deepcopy(source)
        origin = dict(model)
        c.note(form=form, source=frozen, limits=(lmax, rmax))
        hist = []
        c.note(history=hist)
        universe = set(model)
        added = vanished = edited = frz = False

        def state(g=g, model=None, tag=''):
            L, R = defaultdict(dict), defaultdict(dict)
            for (l, r), n in model.items():
                L[l][r] = n
                if r:
                    R[r][l] = n
            ls = {l for l, _ in universe} | {'없'}
            rs = {r for _, r in universe if r} | {'없'}
            for l in ls:
                got = g.get_r(l, -1)
                m.expect(len(dict(got)) == len(got) and dict(got) == L.get(l, {}), 'left-view' + tag, l=l, got=got, want=L.get(l, {}), history=hist)
                counts = [n for _, n in got]
                m.expect(counts == sorted(counts, reverse=True), 'left-ranking' + tag, l=l, got=got)
                m.expect(all(n > 0 for n in counts), 'non-positive-count' + tag, l=l, got=got)
            for r in rs:
                got = g.get_l(r, -1)
                m.expect(len(dict(got)) == len(got) and dict(got) == R.get(r, {}), 'right-view' + tag, r=r, got=got, want=R.get(r, {}), history=hist)
                counts = [n for _, n in got]
                m.expect(counts == sorted(counts, reverse=True), 'right-ranking' + tag, r=r, got=got)
            for q, table, f in ((ls, L, g.get_r), (rs, R, g.get_l)):
                q = rng.choice(sorted(q))
                k = rng.randrange(1, 4)
                got = f(q, k)
                full = sorted(table.get(q, {}).values(), reverse=True)
                m.eq([n for _, n in got], full[:k], 'truncated-ranking' + tag, query=q, topk=k)
                m.expect(all(table.get(q, {}).get(x) == n for x, n in got), 'truncated-items' + tag, query=q)
                m.eq([n for _, n in f(q)], full[:10], 'default-truncation', query=q)
                m.seen('wide', len(full) > 10)
                if len(full) > k:
                    m.seen('truncated')
        state(model=model)
        for _ in range(rng.randrange(1, 9)):
            op = rng.choice(('add_pair', 'add_word', 'rm_pair', 'rm_word', 'rm_word', 'rm_pair', 'reset', 'copy', 'freeze' if rng.random() < .2 else 'rm_word'))
            n = rng.choice((1, 1, 1, 2, 3, 4, 9, 9, 12345))
            known = sorted(k for k in model)
            if op in ('add_pair', 'rm_pair'):
                l, r = rng.choice(known) if known and rng.random() < .7 else (w_(3), rng.choice(('', w_(3))))
                pairs = [(l, r)]
                hist.append((op, l, r, n))
            elif op in ('add_word', 'rm_word'):
                w = ''.join(rng.choice(known)) if known and rng.random() < .7 else w_()
                pairs = splits(w)
                hist.append((op, w, n))
            else:
                pairs = []
                hist.append((op,))
            universe.update(pairs)
            kw = {} if n == 1 and rng.random() < .5 else {'count': n}
            if op == 'add_pair':
                g.add_lr_pair(l, r, **kw)
            elif op == 'add_word':
                g.add_eojeol(w, **kw)
            elif op == 'rm_pair':
                g.remove_lr_pair(l, r, **kw)
            elif op == 'rm_word':
                g.remove_eojeol(w, **kw)
            elif op == 'freeze':
                if origin:
                    m.seen('freeze')
                    g.freeze()
                    frz = True
            elif op == 'copy':
                if not frz:
                    m.seen('copy')
                    h = g.copy_compatified_lrgraph_origin()
                    state(h, origin, '-copy')
                    known_o = sorted(origin)
                    if known_o:
                        h.remove_eojeol(''.join(known_o[0]), 100)
                        h.add_lr_pair(*known_o[-1])
            elif op == 'reset':
                if origin:
                    g.reset_lrgraph()
                    if not frz:
                        if edited:
                            m.seen('reset_after_edit')
                        model = dict(origin)
            for p in pairs:
                if op.startswith('add'):
                    edited = True
                    if p not in model:
                        added = True
                        m.seen('new_pair')
                    model[p] = model.get(p, 0) + n
                elif p in model:
                    edited = True
                    if model[p] < n:
                        m.seen('over_removed')
                    model[p] -= n
                    if model[p] <= 0:
                        del model[p]
                        vanished = True
                        m.seen('vanished')
            state(model=model)
        if origin and not frz:
            g.reset_lrgraph()
            state(model=origin, tag='-after-reset')
        src_now = {k: dict(v) for k, v in source.items()} if isinstance(source, dict) else source
        m.eq(src_now, frozen, 'caller-argument-modified', history=hist)
        if added and vanished:
            m.nontrivial(frozen, hist)
    m.each('histories', m.n(1500, 25000), body)

    def heavy(c):
        """counts of the size a real corpus has"""
        rng = c.rng
        w, v = rng.choice((('가나', '가다'), ('나라가', '나'), ('하다', '이하다')))
        a, b = rng.choice((9999, 10001, 70000)), rng.randrange(1, 3000)
        c.note(words=(w, v), counts=(a, b))
        g = LRGraph(sents=[' '.join([w] * a), ' '.join([v] * b), w])
        want = defaultdict(int)
        for x, n in ((w, a + 1), (v, b)):
            for p in splits(x):
                want[p] += n
        for _ in range(2):
            for l, r in want:
                m.eq(dict(g.get_r(l, -1)), {y: n for (x, y), n in want.items() if x == l}, 'heavy-left', l=l)
                if r:
                    m.eq(dict(g.get_l(r, -1)), {x: n for (x, y), n in want.items() if y == r}, 'heavy-right', r=r)
            k = rng.randrange(1, b + 1) if b > 1 else 1
            for x, n in ((w, a // 2), (v, k)):
                g.remove_eojeol(x, n)
                for p in splits(x):
                    want[p] -= n
                    if want[p] <= 0:
                        del want[p]
        m.nontrivial('heavy', w, a, b)
    m.each('heavy', m.n(4, 60), heavy)

    def star(c):
        """one part with hundreds of partners"""
        rng = c.rng
        n = rng.choice((60, 101, 130, 260, 700))
        left = rng.random() < .5
        hub = rng.choice(('가', '나라'))
        if c.index in (3, 4):
            n, left = 10050, c.index == 3
        others = rng.sample([chr(0xAC00 + i) + x for i in range(0, 11000, 1 if n > 2000 else 7) for x in ('', '다')], n)
        cnt = {o: rng.choice((1, 2, 3, rng.randrange(1, 500))) for o in others}
        c.note(hub=hub, side='left' if left else 'right', partners=cnt)
        if rng.random() < .5:
            g = LRGraph(lrgraph={hub: dict(cnt)} if left else {o: {hub: k} for o, k in cnt.items()})
        else:
            g = LRGraph(lrgraph={'시작': {'은': 1}})
            for o, k in cnt.items():
                g.add_lr_pair(*((hub, o) if left else (o, hub)), k)
        built = dict(cnt) if g.get_r('시작', 1) == [] else {}
        ask = g.get_r if left else g.get_l
        for _ in range(3):
            m.eq(dict(ask(hub, -1)), cnt, 'star-all')
            m.eq(dict(ask(hub, 0)), cnt, 'star-all')
            order = sorted(cnt.values(), reverse=True)
            m.eq([k for _, k in ask(hub, -1)], order, 'star-ranking')
            for k in (1, 10, 50, 100, 150, n - 1, n, n + 5):
                if k > 0:
                    got = ask(hub, k)
                    m.eq([x for _, x in got], order[:k], 'star-truncated', topk=k)
                    m.expect(all(cnt.get(o) == x for o, x in got), 'star-count', topk=k)
            m.eq([x for _, x in ask(hub)], order[:10], 'star-default')
            for o in rng.sample(sorted(cnt), min(len(cnt), 40)):
                back = g.get_l(o, -1) if left else g.get_r(o, -1)
                m.eq(dict(back).get(hub), cnt[o], 'star-other-view', part=o)
            for o in rng.sample(sorted(cnt), len(cnt) // 3):
                k = rng.choice((1, cnt[o], 2))
                g.remove_lr_pair(*((hub, o) if left else (o, hub)), k)
                cnt[o] -= k
                if cnt[o] <= 0:
                    del cnt[o]
        g.reset_lrgraph()
        m.eq(dict(ask(hub, -1)), built, 'star-reset')
        for o in rng.sample(sorted(others), 40):
            m.eq(dict(g.get_l(o, -1) if left else g.get_r(o, -1)), {hub: built[o]} if built else {}, 'star-reset-other-view', part=o)
        m.seen('star')
        m.nontrivial('star', hub, left, sorted(cnt.items()))
    m.each('star', m.n(12, 200), star)
