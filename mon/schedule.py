# -*- coding: utf-8 -*-
"""Controlled interleaving of real calls.

Interleaver runs each list of operations in its own thread, but lets exactly one thread run at a time: at every line (or
byte-code instruction) of the library a seeded generator decides whether to hand over to another thread.  A run is
repeatable from the seed.  nested() runs other operations in the middle of an operation, in the same thread, as a generator
argument, a callback or a signal handler of the caller would.
"""
import sys
import threading


class Interleaver:
    STUCK = 5.0            # a waiting thread stops waiting when the running one blocks on something else (a lock of the library)

    def __init__(self, rng, root, p, opcodes=False, limit=4000):
        self.rng, self.root, self.p, self.opcodes, self.limit = rng, root, p, opcodes, limit
        self.switches = 0
        self.pairs = set()
        self.free = False

    def run(self, programs):
        n = len(programs)
        self.gates = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.at = [None] * n
        self.done = threading.Semaphore(0)
        self.results = [[] for _ in range(n)]
        threads = [threading.Thread(target=self._main, args=(i, programs[i]), daemon=True) for i in range(n)]
        for t in threads:
            t.start()
        self.gates[self.rng.randrange(n)].release()
        for _ in range(n):
            self.done.acquire()
        for t in threads:
            t.join()
        return self.results

    def _wait(self, me):
        while not self.gates[me].acquire(timeout=self.STUCK):
            if self.free or not any(i != me for i in self.alive):
                return
            # nobody handed over for a long time: either a long call, or the owner is blocked by us
            self.free = True
            return

    def _main(self, me, ops):
        self._wait(me)

        def local(frame, event, arg):
            if event == 'line' or event == 'opcode':
                self._point(me, frame)
            return local

        def trace(frame, event, arg):
            if frame.f_code.co_filename.startswith(self.root):
                frame.f_trace_opcodes = self.opcodes
                return local
            return None
        for op in ops:
            sys.settrace(trace)
            try:
                r = op()
            except Exception as e:
                r = ('raised', type(e).__name__)
            finally:
                sys.settrace(None)
            self.results[me].append(r)
        self.alive.discard(me)
        if self.alive:
            self.gates[self.rng.choice(sorted(self.alive))].release()
        self.done.release()

    def _point(self, me, frame):
        if self.free or self.switches >= self.limit or len(self.alive) < 2 or self.rng.random() >= self.p:
            return
        other = self.rng.choice([i for i in sorted(self.alive) if i != me])
        self.at[me] = (frame.f_code.co_qualname, frame.f_lineno)
        self.switches += 1
        self.pairs.add((self.at[me], self.at[other]))
        self.gates[other].release()
        self._wait(me)


def nested(rng, root, p, op, others, limit=30):
    """run op; at random lines of it run one of the others in full -> result, [(index of the other, its result, where)]"""
    inner = []

    def local(frame, event, arg):
        if event == 'line' and len(inner) < limit and rng.random() < p:
            k = rng.randrange(len(others))
            try:
                r = others[k]()
            except Exception as e:
                r = ('raised', type(e).__name__)
            inner.append((k, r, (frame.f_code.co_qualname, frame.f_lineno)))
        return local

    def trace(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(root) else None
    sys.settrace(trace)
    try:
        r = op()
    except Exception as e:
        r = ('raised', type(e).__name__)
    finally:
        sys.settrace(None)
    return r, inner
