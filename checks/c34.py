# -*- coding: utf-8 -*-
"""C34: input refusal, file helpers and promised names."""
import contextlib
import importlib
import io
import os
import pkgutil
import shutil
import subprocess
import sys
import tempfile
from mon import text
from mon.core import REPO

RULE = '''objects of every kind handed to the corpus check and to each trainer (lists, tuples, sets, line corpora, lazy sized objects, generators,
numbers, empty ones, objects whose length raises or is negative) before and after a successful training; random text files (duplicates, blank
and padded lines, no final newline, Korean, long) sorted; random nested paths created; every package star-imported in a fresh interpreter;
memory figures against the kernel's own. Oracle: the stated contracts. Non-trivial: a refused object after a training, or a file whose
lines had to move; keyed by the input.'''


class Sized:
    def __init__(self, xs, n=None):
        self.xs, self.n, self.passes = xs, n, 0

    def __iter__(self):
        self.passes += 1
        return iter(self.xs)

    def __len__(self):
        return len(self.xs) if self.n is None else self.n


class NoLen:
    def __init__(self, xs):
        self.xs = xs

    def __iter__(self):
        return iter(self.xs)


class NoIter:
    def __len__(self):
        return 3


class Indexed:
    """has items and a length, but is not iterable by the protocol"""

    def __getitem__(self, i):
        return ['가 나'][i]

    def __len__(self):
        return 1


def run(m):
    from soynlp.utils import check_corpus, check_dirs, sort_by_alphabet, get_available_memory, get_process_memory, DoublespaceLineCorpus, EojeolCounter
    from soynlp.word import WordExtractor
    from soynlp.noun import LRNounExtractor, LRNounExtractor_v2
    m.require('accepted', 'refused', 'refused_after_training', 'learned', 'sorted', 'moved', 'duplicates', 'blank_lines', 'common_prefix', 'dirs_made', 'dirs_there', 'packages', 'memory')
    scratch = tempfile.mkdtemp(prefix='verif_c34_')

    def corpus(rng):
        return [' '.join(text.eojeol(rng) for _ in range(rng.randrange(1, 6))) for _ in range(rng.choice((1, 3, 8)))]

    def offers(rng, sents):
        p = os.path.join(scratch, 'corpus%d' % rng.randrange(3))
        with open(p, 'w', encoding='utf-8') as f:
            f.write('\n'.join(sents) + '\n')
        e = os.path.join(scratch, 'empty')
        open(e, 'w').close()
        good = [list(sents), tuple(sents), set(sents), dict.fromkeys(sents), Sized(sents), DoublespaceLineCorpus(p), DoublespaceLineCorpus(p, iter_sent=True)]
        bad = [[], (), set(), {}, Sized([]), Sized(sents, 0), NoLen(sents), (x for x in sents), iter(sents), map(str, sents), 3, None, 2.5, NoIter(), Indexed(), len,
               DoublespaceLineCorpus(e), DoublespaceLineCorpus(e, iter_sent=True)]
        return good, bad

    def refused(f):
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                f()
            return False
        except ValueError:
            return True

    def check(c):
        rng = c.rng
        sents = corpus(rng)
        c.note(sentences=sents)
        good, bad = offers(rng, sents)
        for g in good:
            r = None
            try:
                r = check_corpus(g)
            except Exception as ex:
                m.expect(False, 'good-corpus-refused', kind=type(g).__name__, error=repr(ex))
                continue
            m.expect(r is True, 'check-result', kind=type(g).__name__, got=r)
            if isinstance(g, Sized):
                m.eq(g.passes, 0, 'check-consumes')
            m.seen('accepted')
        for b in bad:
            m.expect(refused(lambda: check_corpus(b)), 'bad-corpus-accepted', kind=type(b).__name__, value=repr(b)[:60])
            m.seen('refused')
        one = iter(sents)
        refused(lambda: check_corpus(one))
        m.eq(list(one), sents, 'check-consumes')
    m.each('check', m.n(60, 1500), check)

    def snapshot(x, get):
        with contextlib.redirect_stdout(io.StringIO()):
            return {w: tuple(s) for w, s in get(x).items()}

    def trainers(c):
        rng = c.rng
        sents = [' '.join(text.NOUNS[i] + rng.choice(text.JOSA) for i in range(6)) for _ in range(6)]
        c.note(sentences=sents)
        _, bad = offers(rng, sents)
        made = {'words': (lambda: WordExtractor(min_frequency=1), lambda x, s: x.train(s, cumulate=rng.random() < .5), lambda x: x.extract()),
                'nouns1': (lambda: LRNounExtractor(verbose=False), lambda x, s: x.train(s, min_noun_frequency=1), lambda x: x.extract(min_noun_frequency=1)),
                'nouns2': (lambda: LRNounExtractor_v2(verbose=False), lambda x, s: x.train(s), lambda x: x.extract())}
        for name, (make, train, get) in made.items():
            with contextlib.redirect_stdout(io.StringIO()):
                x = make()
                train(x, sents)
            before = snapshot(x, get)
            m.seen('learned', len(before))
            for b in rng.sample(bad, 6):
                if isinstance(b, (NoIter, Indexed)):
                    continue
                m.expect(refused(lambda: train(x, b)), 'trained-on-unsuitable-corpus', trainer=name, kind=type(b).__name__, value=repr(b)[:60])
                after = snapshot(x, get)
                m.expect(after == before, 'refusal-changed-results', trainer=name, kind=type(b).__name__, before=len(before), after=len(after))
                m.seen('refused_after_training')
                m.nontrivial(name, type(b).__name__, sents)
        for b in bad:
            if b is not None and not isinstance(b, (NoIter, Indexed)):
                m.expect(refused(lambda: EojeolCounter(b)), 'counted-unsuitable-corpus', kind=type(b).__name__)
    m.each('trainers', m.n(8, 200), trainers)

    def files(c):
        rng = c.rng
        p = os.path.join(scratch, 'sort%d' % (c.index % 3))
        k = rng.random()
        if k < .6:
            lines = [text.small_words(rng, rng.choice(('가나', '가나다Ab1', '힣각가 ')), 4) for _ in range(rng.randrange(0, 30))]
        elif k < .9:
            lines = [text.eojeol(rng) for _ in range(rng.randrange(0, 60))]
        else:
            lines = [w for w in (text.hostile(rng, 8).replace('\r', '').replace('\n', '') for _ in range(20))]
            lines = [w for w in lines if w.encode('utf-8', 'ignore').decode() == w]
        lines = [rng.choice(('', '', ' ', '\t')) + w + rng.choice(('', '', ' ')) if rng.random() < .3 else w for w in lines]
        if rng.random() < .4:
            for _ in range(3):
                lines.insert(rng.randrange(len(lines) + 1), rng.choice(('', ' ', '\t ')))
        if lines and rng.random() < .5:
            lines += rng.choices(lines, k=3)
        if rng.random() < .15:
            head = ''.join(rng.choice('가나 ') for _ in range(rng.choice((20, 60, 300, 2000))))
            lines = ['가' + head + w for w in lines]
            m.seen('common_prefix', len(set(lines)) > 1)
        c.note(lines=lines)
        with open(p, 'w', encoding='utf-8', newline='') as f:
            f.write('\n'.join(lines) + rng.choice(('', '\n')))
        want = sorted(w.strip() for w in lines if w.strip())
        m.seen('blank_lines', any(not w.strip() for w in lines))
        m.seen('duplicates', len(set(want)) < len(want))
        for again in range(2):
            sort_by_alphabet(p)
            with open(p, encoding='utf-8', newline='') as f:
                got = f.read().replace(os.linesep, '\n')
            m.eq(got, ''.join(w + '\n' for w in want), 'sorted-file' if not again else 'sorting-twice')
        m.seen('sorted')
        if [w.strip() for w in lines if w.strip()] != want:
            m.seen('moved')
            m.nontrivial(lines)
    m.each('files', m.n(600, 12000), files)

    def dirs(c):
        rng = c.rng
        top = tempfile.mkdtemp(dir=scratch)
        made = set()
        for _ in range(6):
            parts = [rng.choice(('a', 'b', '가', 'x.y', 'd e')) for _ in range(rng.randrange(0, 4))]
            d = os.path.join(top, *parts)
            q = os.path.join(d, rng.choice(('file', 'file.log', '')))
            was = os.path.isdir(d)
            if was and rng.random() < .7:
                with open(os.path.join(d, 'keep'), 'w') as f:
                    f.write('kept')
                made.add(os.path.join(d, 'keep'))
            c.note(path=q)
            with contextlib.redirect_stdout(io.StringIO()):
                check_dirs(q)
            m.expect(os.path.isdir(d), 'folder-missing', path=q)
            m.expect(q.endswith('/') or not os.path.exists(q), 'file-created', path=q)
            m.expect(all(os.path.isfile(f) for f in made), 'folder-replaced', path=q)
            m.seen('dirs_there' if was else 'dirs_made')
        cwd = os.getcwd()
        try:
            os.chdir(top)
            before = sorted(os.listdir('.'))
            with contextlib.redirect_stdout(io.StringIO()):
                check_dirs('file')
                check_dirs('./file')
            m.eq(sorted(os.listdir('.')), before, 'created-for-plain-name')
            with contextlib.redirect_stdout(io.StringIO()):
                check_dirs('rel/deep/file')
            m.expect(os.path.isdir(os.path.join(top, 'rel', 'deep')), 'relative-folder-missing')
        finally:
            os.chdir(cwd)
    m.each('dirs', m.n(60, 1000), dirs)

    def packages(c):
        names = ['soynlp'] + ['soynlp.' + x.name for x in pkgutil.iter_modules([os.path.join(REPO, 'soynlp')]) if x.ispkg]
        for n in names:
            r = subprocess.run([sys.executable, '-W', 'ignore', '-c',
                                'import sys; sys.path.insert(0, %r)\nfrom %s import *\nimport %s as q\nfor n in getattr(q, "__all__", ()): assert n in globals(), n' % (REPO, n, n)],
                               cwd=scratch, text=True, capture_output=True)
            m.expect(r.returncode == 0, 'star-import', package=n, error=r.stderr[-200:])
            q = importlib.import_module(n)
            for x in getattr(q, '__all__', ()):
                m.expect(hasattr(q, x) or _importable(n, x), 'promised-name-missing', package=n, name=x)
            m.seen('packages')
        c.note(packages=names)
    m.each('packages', 1, packages)

    def memory(c):
        import psutil
        a, p = get_available_memory(), get_process_memory()
        real = psutil.Process(os.getpid()).memory_info().rss / 2 ** 30
        m.expect(0 <= a <= 100, 'available-memory', got=a)
        m.expect(abs(p - real) < .2 * real, 'process-memory', got=p, kernel=real)
        big = bytearray(200 << 20)
        for i in range(0, len(big), 4096):
            big[i] = 1
        q = get_process_memory()
        m.expect(.15 < q - p < .25, 'process-memory-growth', before=p, after=q, allocated_gb=200 / 1024)
        vm = psutil.virtual_memory()
        m.expect(abs(get_available_memory() - 100 * vm.available / vm.total) < 15, 'available-memory-value', got=get_available_memory())
        del big
        m.seen('memory')
    try:
        m.each('memory', m.n(2, 10), memory)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _importable(package, name):
    try:
        importlib.import_module('%s.%s' % (package, name))
        return True
    except ImportError:
        return False
