# -*- coding: utf-8 -*-
"""C12: DoublespaceLineCorpus history monitor."""
import itertools
import os
import tempfile
from mon import text

RULE = '''random files (blank lines, blank sentences, exotic whitespace, CR/LF endings, lone CR, missing final newline, empty file) x document
and sentence limits x header skips x random histories of len / full pass / partial pass / two interleaved passes / mode switch,
compared after every operation with a list model of the file. Non-trivial: a history with at least one pass of 2+ items after a
length query or switch; keyed by (file, configuration, history).'''


def make_file(rng):
    lines = []
    size = rng.choice((0, 1, 1, 2, 3, 5, 9))
    if rng.random() < .01:
        size = rng.choice((130, 1100))
    for _ in range(size):
        x = rng.random()
        if x < .2:
            lines.append(rng.choice(('', ' ', '   ', '\t')))
        else:
            sents = [rng.choice((text.sentence(rng, 1, 3), '가', 'a b', '', ' ', '\u3000', '가\u2028나', '\x0b다\x1c라\x85', '\ufeff가')) for _ in range(rng.randrange(1, 5))]
            lines.append(rng.choice(('', ' ', '  ')) + rng.choice(('  ', '   ', '    ')).join(sents) + rng.choice(('', ' ', '  ')))
    if rng.random() < .002:      # a document of thousands of sentences
        lines.insert(rng.randrange(len(lines) + 1), '  '.join(rng.choice('가나다') for _ in range(6001)))
    eol = rng.choice(('\n', '\n', '\r\n', '\r'))
    body = eol.join(lines)
    if lines and rng.random() < .7:
        body += eol
    return body


def model(path, num_doc, num_sent, iter_sent, skip):
    with open(path, encoding='utf-8') as f:
        lines = f.readlines()[skip:]
    if num_doc > 0:
        lines = lines[:num_doc]
    if not iter_sent:
        return [l.strip() for l in lines]
    sents = [s.strip() for l in lines for s in l.split('  ') if s.strip()]
    return sents[:num_sent] if num_sent > 0 else sents


def run(m):
    from soynlp.utils import DoublespaceLineCorpus
    m.require('len', 'pass', 'partial', 'interleaved', 'switch', 'doc_limit', 'sent_limit', 'header', 'empty_file')

    def body(c):
        rng = c.rng
        with tempfile.TemporaryDirectory(prefix='verif-c12-') as d:
            path = os.path.join(d, 'corpus.txt')
            content = make_file(rng)
            with open(path, 'w', encoding='utf-8', newline='') as f:
                f.write(content)
            num_doc = rng.choice((-1, -1, 0, 1, 2, 3, 20, 120))
            iter_sent = rng.random() < .5
            num_sent = rng.choice((-1, -1, -1, 1, 2, 3, 5, 50, 200)) if iter_sent else -1
            skip = rng.choice((0, 0, 0, 1, 2, 12))
            kw = dict(num_doc=num_doc, num_sent=num_sent, iter_sent=iter_sent, skip_header=skip)
            c.note(content=content, config=kw)
            m.seen('doc_limit', num_doc > 0)
            m.seen('sent_limit', num_sent > 0)
            m.seen('header', skip > 0)
            m.seen('empty_file', not content)
            corpus = DoublespaceLineCorpus(path, **kw)
            hist, rich, queried = [], False, False
            for _ in range(rng.randrange(2, 8)):
                want = model(path, num_doc, num_sent, iter_sent, skip)
                op = rng.choice(('len', 'len', 'pass', 'pass', 'partial', 'interleaved', 'switch'))
                if op == 'switch':
                    if num_sent > 0:
                        continue
                    iter_sent = not iter_sent
                    corpus.iter_sent = iter_sent
                    queried = True
                hist.append(op)
                m.seen(op)
                if op == 'len':
                    m.eq(len(corpus), len(want), 'length', history=hist)
                    queried = True
                elif op == 'pass':
                    m.eq(list(corpus), want, 'items', history=hist)
                    rich = rich or (queried and len(want) > 1)
                elif op == 'partial':
                    k = rng.randrange(len(want) + 1)
                    m.eq(list(itertools.islice(iter(corpus), k)), want[:k], 'partial', history=hist)
                elif op == 'interleaved':
                    a, b = iter(corpus), iter(corpus)
                    ga, gb = [], []
                    for _ in range(min(60, 2 * len(want) + 4)):
                        it, got = rng.choice(((a, ga), (b, gb)))
                        for x in itertools.islice(it, 1):
                            got.append(x)
                        if rng.random() < .1:
                            m.eq(len(corpus), len(want), 'length-during-pass', history=hist)
                    ga += list(a)
                    gb += list(b)
                    m.eq(ga, want, 'interleaved', history=hist)
                    m.eq(gb, want, 'interleaved', history=hist)
            want = model(path, num_doc, num_sent, iter_sent, skip)
            m.eq(list(corpus), want, 'items-at-end', history=hist)
            m.eq(len(corpus), len(want), 'length-at-end', history=hist)
            with open(path, encoding='utf-8', newline='') as f:
                m.eq(f.read(), content, 'file-modified')
            if rich:
                m.nontrivial(content, sorted(kw.items()), hist)
    m.each('histories', m.n(2500, 40000), body)

    def missing(c):
        try:
            DoublespaceLineCorpus('/nonexistent/verif-corpus')
            m.expect(False, 'missing-file-accepted')
        except ValueError:
            m.decisions += 1
    m.each('missing', 1, missing)
