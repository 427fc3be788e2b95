# -*- coding: utf-8 -*-
"""
Exploration engine shared by all the checks.

A check is a set of *families*.  A family enumerates a finite space of cases (networks, programs,
operation sequences, schedules, ...) completely; each case is executed on the real code of /repo
and judged against an independent reference (the oracle).  A case may itself contain choice points
(`Chooser`): these are explored depth first until every combination has been executed (stateless
model checking); or a reachable state graph can be built breadth first (`bfs`).

What is counted, per run:
  states       distinct canonical configurations/states reached (hashed)
  transitions  API steps / worklist steps / solves executed on the real implementation
  traces       complete executions compared against the reference model
"""
import hashlib
import io
import json
import os
import signal
import sys
import time
import traceback
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
    def __init__(self, message, sig=None):
        super(Violation, self).__init__(message)
        self.message = message
        self.sig = sig


class CaseTimeout(BaseException):
    pass


class Ctx(object):
    """Accumulates the coverage of the cases run by one worker."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.classes = {}

    def state(self, *key):
        self.states.add(hashlib.blake2b(repr(key).encode('utf8', 'replace'), digest_size=8).digest())

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def cls(self, label):
        self.classes[label] = self.classes.get(label, 0) + 1

    def require(self, cond, message, sig=None):
        if not cond:
            raise Violation(message() if callable(message) else message, sig=sig)

    def close(self, got, want, message, rtol=1e-8, atol=1e-10, sig=None):
        """compare numbers / arrays with broadcasting"""
        import numpy as np
        g = np.asarray(got, dtype=complex)
        w = np.asarray(want, dtype=complex)
        try:
            ok = np.all(np.isfinite(g)) and np.all(abs(g - w) <= atol + rtol * abs(w))
        except ValueError:
            ok = False
        if not ok:
            msg = message() if callable(message) else message
            raise Violation('{0}: got {1!r}, expected {2!r}'.format(msg, got, want), sig=sig)


class Chooser(object):
    """A scripted source of nondeterminism, for stateless exploration."""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.trail = []

    def choose(self, n):
        if n <= 1:
            return 0
        i = len(self.trail)
        c = self.prefix[i] if i < len(self.prefix) else 0
        assert c < n, "nondeterministic program under exploration"
        self.trail.append((c, n))
        return c

    def script(self):
        return [c for c, n in self.trail]


def explore(run, max_execs=None, preemptions=None):
    """
    Runs run(chooser) for every combination of choices. Returns (executions, complete).
    preemptions: bound on the number of non-zero (non default) choices.
    """
    prefix = []
    n = 0
    while True:
        ch = Chooser(prefix)
        run(ch)
        n += 1
        trail = list(ch.trail)
        while trail:
            c, m = trail[-1]
            dev = sum(1 for cc, _ in trail[:-1] if cc)
            if c + 1 < m and (preemptions is None or dev + 1 <= preemptions):
                break
            trail.pop()
        if not trail:
            return n, True
        if max_execs is not None and n >= max_execs:
            return n, False
        prefix = [c for c, _ in trail[:-1]] + [trail[-1][0] + 1]


def bfs(initial, successors, canon, visit, max_depth=None, max_states=None):
    """
    Explicit-state search. `initial` is a list of states, successors(state) yields
    (label, state), canon(state) is hashable. visit(state, path) checks the state.
    Returns (states, transitions, complete).
    """
    seen = set()
    frontier = []
    trans = 0
    for s in initial:
        k = canon(s)
        if k not in seen:
            seen.add(k)
            visit(s, [])
            frontier.append((s, []))
    depth = 0
    while frontier and (max_depth is None or depth < max_depth):
        nxt = []
        for s, path in frontier:
            for label, s2 in successors(s):
                trans += 1
                k = canon(s2)
                if k in seen:
                    continue
                seen.add(k)
                p2 = path + [label]
                visit(s2, p2)
                nxt.append((s2, p2))
                if max_states is not None and len(seen) >= max_states:
                    return len(seen), trans, False
        frontier = nxt
        depth += 1
    return len(seen), trans, True


class Family(object):
    """
    name   : identifies the family in replay files
    cases  : callable(tier) -> iterable of JSON-able cases (complete enumeration of a finite space)
    run    : callable(case, ctx); raises Violation (or any exception) when the property fails
    bound  : text, the bounds of the enumeration
    cpu_s  : CPU seconds after which a single case counts as not terminating
    """

    def __init__(self, name, cases, run, bound, cpu_s=120, chunk=None):
        self.name = name
        self.cases = cases
        self.run = run
        self.bound = bound
        self.cpu_s = cpu_s
        self.chunk = chunk


def _alarm(signum, frame):
    raise CaseTimeout()


_FAMS = {}
_STOP = None
_KNOWN = {}
MAX_VIOL_PER_CHUNK = 3


def run_case(fam, case, ctx):
    """returns None or (sig, message)"""
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, fam.cpu_s)
    out = io.StringIO()
    so = sys.stdout
    sys.stdout = out
    try:
        fam.run(case, ctx)
        return None
    except Violation as E:
        return (E.sig, E.message)
    except CaseTimeout:
        return (None, "did not terminate within {0} CPU seconds".format(fam.cpu_s))
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as E:
        tb = traceback.format_exc().strip().splitlines()
        return (None, "raised {0}: {1} [{2}]".format(type(E).__name__, E, ' | '.join(t.strip() for t in tb[-5:-1])))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        sys.stdout = so


def _work(args):
    famname, chunk = args
    fam = _FAMS[famname]
    ctx = Ctx()
    viols = []
    n = 0
    if _STOP.value:
        return famname, n, ctx, viols, len(chunk)
    skipped = 0
    for i, case in enumerate(chunk):
        n += 1
        v = run_case(fam, case, ctx)
        if v is not None:
            viols.append((case, v[0], v[1]))
            if sum(1 for w in viols if w[1] is None or w[1] not in _KNOWN) >= MAX_VIOL_PER_CHUNK:
                skipped = len(chunk) - i - 1
                break
    return famname, n, ctx, viols, skipped


def _chunks(fams, tier, nproc):
    # round-robin over the families so that every family makes progress under a time limit
    for fam in fams:
        buf = []
        size = fam.chunk
        cases = fam.cases(tier)
        if size is None:
            cases = list(cases)
            size = max(1, min(200, len(cases) // (nproc * 6) or 1))
        for c in cases:
            buf.append(c)
            if len(buf) >= size:
                yield fam.name, buf
                buf = []
        if buf:
            yield fam.name, buf


def load_known(prop):
    sigs = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with io.open(path, encoding='utf8') as F:
            for line in F:
                line = line.strip()
                if not line.startswith('finding:'):
                    continue
                # finding: property=<id> sig=<sig> <what fails>
                parts = line.split(None, 3)
                if parts[1] == 'property=' + prop and parts[2].startswith('sig='):
                    sigs[parts[2][4:]] = parts[3] if len(parts) > 3 else ''
    return sigs


def run_check(prop, families, tier, assumptions=(), level='model_checking', budget_s=None, replay=None):
    global _FAMS, _STOP, _KNOWN
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    _FAMS = dict((f.name, f) for f in families)
    known = _KNOWN = load_known(prop)

    if replay is not None:
        with io.open(replay, encoding='utf8') as F:
            rec = json.load(F)
        ctx = Ctx()
        v = run_case(_FAMS[rec['family']], rec['case'], ctx)
        if v is None:
            print("replay of {0}: property held".format(replay))
            return 0
        print("replay: " + v[1])
        print("VIOLATION property={0} replay={1}".format(prop, replay))
        return 1

    nproc = min(8, os.cpu_count() or 1)
    nproc = int(os.environ.get('VERIF_PROCS', nproc))
    if budget_s is None:
        budget_s = 600 if tier == 'quick' else 3600
    _STOP = mp.Value('b', 0)

    total = Ctx()
    per = dict((f.name, dict(cases=0, skipped=0, bound=f.bound)) for f in families)
    viols = []
    samples = []
    sampled = {}
    mpx = mp.get_context('fork')
    pool = mpx.Pool(nproc)
    try:
        gen = _chunks(families, tier, nproc)

        def feed():
            for name, chunk in gen:
                if sampled.get(name, 0) < 2:
                    sampled[name] = sampled.get(name, 0) + 1
                    samples.append(dict(family=name, case=chunk[len(chunk) // 2]))
                yield name, chunk
        for famname, n, ctx, vs, skipped in pool.imap_unordered(_work, feed()):
            total.states |= ctx.states
            total.transitions += ctx.transitions
            total.traces += ctx.traces
            for k, v in ctx.classes.items():
                total.classes[k] = total.classes.get(k, 0) + v
            per[famname]['cases'] += n
            per[famname]['skipped'] += skipped
            viols.extend((famname, c, s, m) for c, s, m in vs)
            unknown = sum(1 for v in viols if v[2] not in known)
            if unknown >= 12 or time.time() - t0 > budget_s:
                _STOP.value = 1
        pool.close()
    finally:
        pool.terminate()
        pool.join()

    new = [v for v in viols if v[2] is None or v[2] not in known]
    old = {}
    for v in viols:
        if v[2] is not None and v[2] in known:
            old.setdefault(v[2], v)

    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for fn in os.listdir(rdir):
        if fn.startswith(prop + '_'):
            os.remove(os.path.join(rdir, fn))

    complete = not any(p['skipped'] for p in per.values())
    ev = dict(
        property=prop,
        tier=tier if tier in ('quick', 'thorough') else 'quick',
        seed=seed,
        level=level,
        coverage=dict(
            states=len(total.states),
            transitions=total.transitions,
            traces_validated_against_impl=total.traces,
            evaluations=sum(p['cases'] for p in per.values()),
            distinct_behaviour_classes=len(total.classes),
            behaviour_classes=dict(sorted(total.classes.items(), key=lambda kv: str(kv[0]))[:60]),
            families=per,
            samples=samples[:20],
            exhaustive=bool(complete),
        ),
        assumptions=list(assumptions),
        violations=len(new),
        wall_s=round(time.time() - t0, 3),
    )
    if total.states or not new:
        pass
    with io.open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w', encoding='utf8') as F:
        F.write(json.dumps(ev, indent=1, default=str))

    print("{0} [{1}] cases={2} states={3} transitions={4} traces={5} classes={6} exhaustive={7} wall={8:.1f}s".format(
        prop, tier, ev['coverage']['evaluations'], len(total.states), total.transitions, total.traces,
        len(total.classes), complete, time.time() - t0))
    for name, p in per.items():
        print("   {0}: {1} cases{2}; {3}".format(name, p['cases'], ' ({0} skipped)'.format(p['skipped']) if p['skipped'] else '', p['bound']))
    for sig, desc in sorted(known.items()):
        if sig in old:
            print("KNOWN-FINDING: property={0} {1} ({2})".format(prop, desc, sig))
    if new:
        for i, (famname, case, sig, msg) in enumerate(new[:5]):
            path = os.path.join(rdir, '{0}_{1}.json'.format(prop, i))
            with io.open(path, 'w', encoding='utf8') as F:
                F.write(json.dumps(dict(property=prop, family=famname, case=case, sig=sig, message=msg), indent=1, default=str))
            print("   [{0}] {1} -> {2}".format(famname, json.dumps(case, default=str)[:400], msg[:900]))
            print("VIOLATION property={0} replay={1}".format(prop, path))
        return 1
    if ev['coverage']['evaluations'] == 0:
        print("no case was explored")
        return 3
    return 0
