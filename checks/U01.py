# -*- coding: utf-8 -*-
"""
Priority queues: operation histories against a sorted multiset, and all interleavings of
the thread safe queue against linearizability.
"""
import itertools
import sys
import threading
from mc.core import Family, Violation, explore

ASSUMPTIONS = [
    "oracle: a multiset; pop/peek/pushpop/replace return some element of minimal priority which is in it",
    "interleavings: threads are switched at every line of the queue's methods, at every acquisition of a lock of the "
    "module and at every comparison of two elements (heapq compares through Python code), under a controlled scheduler; "
    "switches inside a C call which runs no Python code are impossible in CPython and are not explored",
    "is_empty, peek, pop, push, replace, pushpop of the thread safe queue are each one atomic operation",
]


def module():
    from phasor.utilities.priority_queue import heap_priority_queue
    return heap_priority_queue


class Item(object):
    """priority k, identity i"""
    sched = None

    def __init__(self, k, i):
        self.k = k
        self.i = i

    def __lt__(self, other):
        s = Item.sched
        if s is not None:
            s.point()
        return self.k < other.k

    def __gt__(self, other):
        return other.__lt__(self)

    def __le__(self, other):
        return not other.__lt__(self)

    def __ge__(self, other):
        return not self.__lt__(other)

    def __repr__(self):
        return '{0}.{1}'.format(self.k, self.i)


EMPTY = 'Empty'
INDEX = 'IndexError'


def apply_op(q, op, item):
    M = module()
    try:
        if op == 'push':
            q.push(item)
            return None
        if op == 'pushpop':
            return q.pushpop(item)
        if op == 'replace':
            return q.replace(item)
        if op == 'pop':
            return q.pop()
        if op == 'peek':
            return q.peek()
        if op == 'is_empty':
            return bool(q.is_empty())
        if op == 'len':
            return len(q)
        if op == 'bool':
            return bool(q)
    except M.Empty:
        return EMPTY
    except IndexError:
        return INDEX
    raise KeyError(op)


def model_op(bag, op, item, result):
    """bag: frozenset of items. Returns the new bag, or None when the result is impossible"""
    def minimal(b, it):
        return it in b and all(it.k <= o.k for o in b)
    if op == 'push':
        return bag | {item} if result is None else None
    if op == 'pushpop':
        b = bag | {item}
        return b - {result} if isinstance(result, Item) and minimal(b, result) else None
    if op == 'replace':
        if not bag:
            return bag if result == INDEX else None
        return (bag - {result}) | {item} if isinstance(result, Item) and minimal(bag, result) else None
    if op == 'pop' or op == 'peek':
        if not bag:
            return bag if result == EMPTY else None
        if not (isinstance(result, Item) and minimal(bag, result)):
            return None
        return bag if op == 'peek' else bag - {result}
    if op == 'is_empty':
        return bag if result == (not bag) else None
    if op == 'len':
        return bag if result == len(bag) else None
    if op == 'bool':
        return bag if result == bool(bag) else None
    raise KeyError(op)


SEQ_OPS = ['push', 'pushpop', 'replace', 'pop', 'peek', 'is_empty', 'len', 'bool']


def histories(tier):
    depth = 4 if tier == 'quick' else 5
    nkeys = 3
    # initial contents: every sequence of up to 3 (4) priorities
    for kind in ['HeapPriorityQueue', 'HeapPriorityQueueThreadsafe']:
        for n in range(5):
            for init in itertools.product(range(nkeys), repeat=n):
                if n == 4 and depth == 4 and max(init) < 2:
                    continue
                yield dict(kind=kind, init=list(init), depth=depth if n < 4 else depth - 1)


def run_histories(case, ctx):
    M = module()
    cls = getattr(M, case['kind'])
    safe = case['kind'].endswith('safe')
    moves = []
    for op in SEQ_OPS:
        if op in ('push', 'pushpop', 'replace'):
            moves += [(op, k) for k in range(3)]
        elif safe and op in ('len', 'bool'):
            continue
        else:
            moves.append((op, None))

    def execute(path):
        items = [Item(k, i) for i, k in enumerate(case['init'])]
        src = list(items)
        q = cls(src)
        ctx.require(src == items, "the queue changed the list it was built from")
        bag = frozenset(items)
        for n, (op, k) in enumerate(path):
            it = Item(k, 100 + n) if k is not None else None
            r = apply_op(q, op, it)
            ctx.step()
            nb = model_op(bag, op, it, r)
            ctx.require(nb is not None, lambda: "{0}({1}) on {2} after {3}: got {4}".format(
                op, it, sorted(bag, key=lambda o: o.k), path[:n], r))
            bag = nb
        return q, bag

    def drain(q, bag, path):
        out = []
        while True:
            r = apply_op(q, 'pop', None)
            if r == EMPTY:
                break
            out.append(r)
            if len(out) > len(bag) + 1:
                break
        ctx.step(len(out))
        ctx.require(set(out) == set(bag) and len(out) == len(bag) and all(a.k <= b.k for a, b in zip(out, out[1:])),
                    lambda: "after {0} the queue holds {1}, drained as {2}".format(path, sorted(bag, key=lambda o: o.k), out))

    # breadth first over the states of the heap (priorities in heap order)
    seen = set()
    frontier = [()]
    for d in range(case['depth'] + 1):
        nxt = []
        for path in frontier:
            q, bag = execute(path)
            key = tuple(o.k for o in q.heap) if isinstance(getattr(q, 'heap', None), list) else path
            if key in seen:
                continue
            seen.add(key)
            ctx.state(case['kind'], key)
            drain(q, bag, path)
            ctx.trace()
            if d < case['depth']:
                nxt += [path + (m,) for m in moves]
            else:
                continue
        # every move is executed (and judged) even when it leads to a known state
        frontier = nxt
    ctx.cls(case['kind'])


# ------------------------------------------------------------------ interleavings
class Deadlock(Exception):
    pass


class Scheduler(object):
    """runs one thread at a time; at each point the explorer picks who goes on"""

    def __init__(self, chooser):
        self.ch = chooser
        self.turn = {}
        self.order = []
        self.alive = []
        self.blocked = {}
        self.me = threading.local()
        self.main = threading.Semaphore(0)
        self.dead = False
        self.points = 0
        self.killed = False

    def start(self, fns):
        self.threads = []
        for n, fn in enumerate(fns):
            self.turn[n] = threading.Semaphore(0)
            self.alive.append(n)
            t = threading.Thread(target=self._body, args=(n, fn))
            t.daemon = True
            self.threads.append(t)
            t.start()
        self._next(None)
        ok = self.main.acquire(timeout=60)
        if self.dead or not ok:
            self.killed = True
            for n in list(self.turn):
                self.turn[n].release()
        for t in self.threads:
            t.join(10)
        if self.dead:
            raise Violation("deadlock: every thread waits for a lock")
        if not ok:
            raise Violation("an interleaving did not terminate")

    def _body(self, n, fn):
        self.turn[n].acquire()
        if self.killed:
            return
        self.me.n = n
        try:
            sys.settrace(self.trace)
            fn(n)
        except Deadlock:
            pass
        finally:
            sys.settrace(None)
            self.alive.remove(n)
            self._next(None)

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename.endswith('heap_priority_queue.py'):
            return self.line
        return None

    def line(self, frame, event, arg):
        if event == 'line':
            self.point()
        return self.line

    def runnable(self):
        return [n for n in self.alive if n not in self.blocked or self.blocked[n].free(n)]

    def _next(self, cur):
        """pass the baton; cur is a thread which could go on"""
        if self.killed:
            return
        run = self.runnable()
        if not run:
            if self.alive:
                self.dead = True
            self.main.release()
            return
        if cur in run:
            run.remove(cur)
            run.insert(0, cur)
        n = run[self.ch.choose(len(run))]
        if n != cur:
            self.turn[n].release()
        return n

    def point(self):
        cur = getattr(self.me, 'n', None)
        if cur is None:
            return
        self.points += 1
        if self._next(cur) != cur:
            self.turn[cur].acquire()
            if self.killed:
                raise Deadlock()

    def wait(self, lock):
        cur = self.me.n
        self.blocked[cur] = lock
        self._next(None)
        self.turn[cur].acquire()
        if self.killed:
            raise Deadlock()
        del self.blocked[cur]


class CoopLock(object):
    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def free(self, n):
        return self.owner is None or (self.reentrant and self.owner == n)

    def acquire(self, blocking=True, timeout=-1):
        s = Item.sched
        n = getattr(s.me, 'n', 'main') if s is not None else 'main'
        if s is not None and n != 'main':
            s.point()
            while not self.free(n):
                if not blocking:
                    return False
                s.wait(self)
        self.owner = n
        self.count += 1
        return True

    def release(self):
        self.count -= 1
        if not self.count:
            self.owner = None

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class CoopRLock(CoopLock):
    reentrant = True


class Shim(object):
    Lock = CoopLock
    RLock = CoopRLock

    def __getattr__(self, name):
        return getattr(threading, name)


CONC_OPS = [('push', 0), ('push', 2), ('pushpop', 1), ('replace', 3), ('pop', None), ('peek', None), ('is_empty', None)]


def concurrent(tier):
    inits = [[], [1], [1, 2], [2, 1, 1], [1, 3, 2, 4]]
    idx = range(len(CONC_OPS))
    for init in inits:
        for a in idx:
            for b in idx:
                if b >= a:
                    yield dict(init=init, progs=[[a], [b]], pre=None if tier != 'quick' else 4)
    for init in inits[:3] + [[1, 3, 2]]:
        for a, a2 in itertools.product(idx, repeat=2):
            for b in idx:
                yield dict(init=init, progs=[[a, a2], [b]], pre=2 if tier == 'quick' else 3)
    for init in inits[:3] + ([[1, 3, 2]] if tier != 'quick' else []):
        for c in itertools.combinations_with_replacement(idx, 3):
            yield dict(init=init, progs=[[i] for i in c], pre=2 if tier == 'quick' else 3)


def linearizable(bag, hist, progs):
    """hist: per thread list of (call, ret, op, item, result)"""
    def rec(bag, pos):
        if all(p == len(h) for p, h in zip(pos, hist)):
            return True
        # earliest return among the pending: nothing which was called after it may go before it
        first = min(h[p][1] for p, h in zip(pos, hist) if p < len(h))
        for t, (p, h) in enumerate(zip(pos, hist)):
            if p == len(h) or h[p][0] > first:
                continue
            call, ret, op, item, result = h[p]
            nb = model_op(bag, op, item, result)
            if nb is not None and rec(nb, pos[:t] + (p + 1,) + pos[t + 1:]):
                return True
        return False
    return rec(bag, tuple(0 for _ in hist))


def run_concurrent(case, ctx):
    M = module()
    real = M.threading if hasattr(M, 'threading') else None
    names = [n for n in ('Lock', 'RLock') if hasattr(M, n)]
    saved = dict((n, getattr(M, n)) for n in names)
    if real is not None:
        M.threading = Shim()
    for n in names:
        setattr(M, n, getattr(Shim, n))
    try:
        def run(ch):
            items = [Item(k, i) for i, k in enumerate(case['init'])]
            q = M.HeapPriorityQueueThreadsafe(items)
            s = Scheduler(ch)
            Item.sched = s
            clock = [0]
            hist = [[] for _ in case['progs']]
            errors = []

            def body(n):
                for m, idx in enumerate(case['progs'][n]):
                    op, k = CONC_OPS[idx]
                    it = Item(k, 100 + 10 * n + m) if k is not None else None
                    clock[0] += 1
                    call = clock[0]
                    try:
                        r = apply_op(q, op, it)
                    except Deadlock:
                        raise
                    except BaseException as E:
                        errors.append('{0}: {1}'.format(op, repr(E)))
                        r = repr(E)
                    clock[0] += 1
                    hist[n].append((call, clock[0], op, it, r))
            try:
                s.start([body] * len(case['progs']))
            finally:
                Item.sched = None
            ctx.step(s.points)
            ctx.trace()
            # what is left must be explained as well: drain afterwards, one at a time
            final = []
            while len(final) < 12:
                clock[0] += 1
                r = apply_op(q, 'pop', None)
                final.append((clock[0], clock[0] + 1, 'pop', None, r))
                clock[0] += 1
                if r == EMPTY:
                    break
            ctx.state(case['init'], case['progs'], [[h[4] for h in t] for t in hist], final)
            ctx.require(not errors, lambda: 'schedule {0}: {1}'.format(ch.script(), errors))
            ctx.require(linearizable(frozenset(items), hist + [final], case['progs']),
                        lambda: "schedule {0}: no order of the operations explains {1}, left {2}".format(
                            ch.script(), [[(h[2], h[3], h[4]) for h in t] for t in hist], [f[4] for f in final]))
        n, complete = explore(run, max_execs=20000, preemptions=case['pre'])
        ctx.cls('threads={0} complete={1}'.format(len(case['progs']), complete))
    finally:
        if real is not None:
            M.threading = real
        for n in names:
            setattr(M, n, saved[n])


FAMILIES = [
    Family('histories', histories, run_histories,
           'both queues, every initial sequence of up to 4 priorities of 3, every history of up to 4 (5) operations, drained in every state'),
    Family('interleavings', concurrent, run_concurrent,
           '2 threads x 1 operation (4 deviations; thorough: all schedules), 2+1 operations and 3 threads (2 (3) deviations from run to completion), 7 operations, 5 initial queues',
           cpu_s=600, chunk=2),
]
