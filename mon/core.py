# -*- coding: utf-8 -*-
"""Shared runtime-monitoring core: case scheduler, violation recorder, known
findings, CPU-progress watchdog, line-coverage observer and evidence writer.

A check module defines `run(m)` where m is a Monitor.  It asks the monitor for
cases (`for c in m.cases('stage', n)`), drives the real soynlp code with the
case's own PRNG and reports what it saw:

    m.expect(cond, mechanism, **witness)  one oracle decision over observed behaviour
    m.seen(label)                         an event the oracle relied on was observed
    m.nontrivial(key)                     this case was non-trivial; key identifies it

An exception escaping from a case is a violation of kind `exception:...`
unless the case caught it, because every case only makes calls the property
covers.  A case is replayable from (seed, tier, stage, index) alone.
"""
import contextlib
import collections
import hashlib
import io
import json
import os
import random
import signal
import sys
import time
import traceback
import types

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SOYNLP_REPO', '/repo')
KNOWN = os.path.join(VERIF, 'known_findings.json')


class Violation(Exception):
    pass


class NoProgress(BaseException):
    pass


class TooManyViolations(BaseException):
    pass


def jsonable(x, depth=0, limit=60):
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, (str, int, float, bool)) or x is None:
        if isinstance(x, str):
            x = x.encode('utf-8', 'backslashreplace').decode('utf-8')
            if len(x) > 3000:
                x = x[:3000] + '...(%d chars)' % len(x)
        return x
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:limit]}
    if isinstance(x, (set, frozenset)):
        return [jsonable(v, depth + 1) for v in sorted(x, key=repr)[:limit]]
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in x[:limit]]
    return repr(x)[:500]


class LineObserver:
    """Which lines of soynlp the workload really executed (sys.monitoring, each
    location reported once and then disabled, so it costs nothing afterwards)."""

    def __init__(self, root):
        self.root = os.path.join(os.path.realpath(root), 'soynlp') + os.sep
        self.hit = collections.defaultdict(set)
        self.codes = set()
        self.on = False

    def start(self):
        mon = getattr(sys, 'monitoring', None)
        if mon is None:
            return
        try:
            mon.use_tool_id(mon.COVERAGE_ID, 'verif')
        except ValueError:
            return
        root = self.root

        def line(code, lineno):
            fn = code.co_filename
            if fn.startswith(root):
                self.hit[fn].add(lineno)
                self.codes.add(code)
            return mon.DISABLE
        mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
        mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
        self.on = True

    def stop(self):
        if self.on:
            sys.monitoring.set_events(sys.monitoring.COVERAGE_ID, 0)
            sys.monitoring.free_tool_id(sys.monitoring.COVERAGE_ID)
            self.on = False

    @staticmethod
    def body_lines(path):
        """executable lines inside function bodies of a file"""
        out = set()
        try:
            with open(path, encoding='utf-8') as f:
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    code = compile(f.read(), path, 'exec')
        except Exception:
            return out
        stack = [(code, False)]
        while stack:
            c, infunc = stack.pop()
            if infunc:
                first = c.co_firstlineno
                out.update(l for _, _, l in c.co_lines() if l and l != first)
            for k in c.co_consts:
                if isinstance(k, types.CodeType):
                    # class bodies have no CO_OPTIMIZED flag
                    stack.append((k, bool(k.co_flags & 0x1)))
        return out

    def report(self, files):
        out = {}
        for f in files:
            if not f.endswith('.py'):
                continue
            p = os.path.join(os.path.dirname(os.path.dirname(self.root)), f)
            want = self.body_lines(p)
            got = self.hit.get(p, set()) & want
            out[f] = '%d/%d' % (len(got), len(want))
        return out


class Case:
    def __init__(self, m, stage, index):
        self.stage, self.index = stage, index
        h = hashlib.sha256(('%s|%d|%s|%d' % (m.prop, m.seed, stage, index)).encode()).digest()
        self.rng = random.Random(int.from_bytes(h[:8], 'big'))
        self.inputs = collections.OrderedDict()

    def note(self, **kw):
        """remember the inputs of this case for the witness / evidence sample"""
        self.inputs.update(kw)
        return self


class Monitor:
    MAX_VIOLATIONS = 12
    CPU_LIMIT = 150.0      # CPU seconds one case may use without finishing

    def __init__(self, prop, tier, seed, files=(), only=None, budget_s=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.files = list(files)
        self.only = only
        self.t0 = time.time()
        self.budget_s = budget_s
        self.evaluations = 0
        self.decisions = 0
        self.keys = set()
        self.events = collections.Counter()
        self.stage_counts = collections.Counter()
        self.samples = []
        self.violations = []
        self.known_hits = collections.OrderedDict()
        self.lines = LineObserver(REPO)
        self.required = []
        self.current = None
        self.rule = ''
        self.assumptions = []
        self._mechs = collections.Counter()
        self.known = self._load_known()

    # ------------------------------------------------------------------ setup
    def _load_known(self):
        if not os.path.exists(KNOWN):
            return {}
        with open(KNOWN, encoding='utf-8') as f:
            data = json.load(f)
        return {k['mechanism']: k['what'] for k in data.get('findings', [])
                if k['property'] == self.prop}

    @property
    def thorough(self):
        return self.tier == 'thorough'

    # how often the cheap checks run their quick workload, so that each takes some 15 to 30 seconds
    TIMES = dict(C01=2, C03=4, C04=2, C07=6, C08=4, C09=5, C10=3, C12=4, C13=5, C14=4, C15=2, C17=2, C18=3, C19=4, C20=2, C23=2, C24=2, C32=3, C21=2, C22=4, C25=3, C26=6, C28=2,
                 C29=4, C30=2, C31=4, C35=2, C36=2)

    def n(self, quick, thorough=None):
        if not self.thorough:
            # single cases and switches stay as they are
            times = self.TIMES.get(self.prop, 1) if quick > 1 else 1
            return quick * times if thorough is None else min(quick * times, thorough)
        return thorough if thorough is not None else quick * 20

    def require(self, *labels):
        """labels that must have been seen for 'held' to mean anything"""
        self.required.extend(labels)

    # ------------------------------------------------------------------ cases
    def cases(self, stage, count):
        """yield `count` cases; each runs under `with m.run(case)` by caller or
        simply as loop body guarded by `m.each`."""
        for i in range(count):
            if self.only is not None and self.only != (stage, i):
                continue
            yield Case(self, stage, i)

    def each(self, stage, count, body):
        """run body(case) for each case under the watchdog, recording crashes"""
        for c in self.cases(stage, count):
            if self.budget_s and time.time() - self.t0 > self.budget_s and self.only is None:
                self.events['budget_stop:' + stage] += 1
                break
            self.guard(c, body)

    def guard(self, c, body, *args):
        self.current = c
        self.evaluations += 1
        self.stage_counts[c.stage] += 1
        sink = io.StringIO()
        old = signal.signal(signal.SIGVTALRM, self._no_progress)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.CPU_LIMIT)
        try:
            with contextlib.redirect_stdout(sink):
                body(c, *args)
        except Violation:
            pass
        except NoProgress:
            self.fail('no-progress', 'no result after %.0f CPU seconds' % self.CPU_LIMIT)
        except (KeyboardInterrupt, SystemExit, TooManyViolations, MemoryError):
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if '/soynlp/' in f.filename]
            last = where[-1] if where else tb[-1]
            self.fail('exception:%s@%s' % (type(e).__name__, last.name),
                      '%s: %s' % (type(e).__name__, e),
                      trace=[('%s:%s %s' % (os.path.basename(f.filename), f.lineno, f.name)) for f in tb][-8:])
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGVTALRM, old)
        if len(self.samples) < 6 and c.inputs and self._want_sample(c):
            self.samples.append({'stage': c.stage, 'index': c.index, **jsonable(dict(c.inputs), 1, 12)})

    def _want_sample(self, c):
        return sum(1 for s in self.samples if s['stage'] == c.stage) < 2

    def _no_progress(self, *_):
        raise NoProgress()

    # --------------------------------------------------------------- decisions
    def expect(self, cond, mechanism, what='', /, **witness):
        self.decisions += 1
        if not cond:
            self.fail(mechanism, what, **witness)
            return False
        return True

    def must(self, cond, mechanism, what='', /, **witness):
        if not self.expect(cond, mechanism, what, **witness):
            raise Violation(mechanism)

    def eq(self, got, want, mechanism, what='', /, **witness):
        return self.expect(got == want, mechanism, what, **{'got': got, 'want': want, **witness})

    def close(self, a, b, mechanism, what='', /, tol=1e-9, **witness):
        try:
            ok = abs(a - b) <= tol * max(1.0, abs(a), abs(b)) or a == b
        except TypeError:
            ok = False
        return self.expect(ok, mechanism, what, **{'got': a, 'want': b, **witness})

    def seen(self, label, n=1):
        self.events[label] += n

    def nontrivial(self, *key):
        self.keys.add(hashlib.blake2b(repr(key).encode('utf-8', 'backslashreplace'), digest_size=8).digest())

    def fail(self, mechanism, what='', /, **witness):
        if mechanism in self.known:
            self.known_hits[mechanism] = self.known_hits.get(mechanism, 0) + 1
            return
        self._mechs[mechanism] += 1
        c = self.current
        rec = {'property': self.prop, 'seed': self.seed, 'tier': self.tier,
               'stage': c.stage if c else None, 'index': c.index if c else None,
               'mechanism': mechanism, 'what': jsonable(what),
               'inputs': jsonable(dict(c.inputs)) if c else {},
               'witness': jsonable(witness)}
        if self._mechs[mechanism] <= 2:
            self.violations.append(rec)
        if sum(self._mechs.values()) >= self.MAX_VIOLATIONS:
            raise TooManyViolations()

    # ---------------------------------------------------------------- finishing
    def evidence(self, level='exploration'):
        cov = {
            'evaluations': self.evaluations,
            'distinct_nontrivial': len(self.keys),
            'rule': self.rule,
            'samples': self.samples,
            'oracle_decisions': self.decisions,
            'events_observed': dict(sorted(self.events.items())),
            'cases_per_stage': dict(self.stage_counts),
            'lines_executed_of_anchored_function_bodies': self.lines.report(self.files),
        }
        if self.known_hits:
            cov['known_finding_hits'] = dict(self.known_hits)
        return {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level,
            'coverage': cov, 'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations),
        }
