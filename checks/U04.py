# -*- coding: utf-8 -*-
"""
Array utilities: sections of flags, sorting, selecting, phases.
"""
import itertools
import numpy as np
from mc.core import Family

ASSUMPTIONS = [
    "oracle: brute force over the entries of each small array",
    "a section is given by its first index and the index after its last, or the last index of the array when it reaches the end",
    "search_local_sorted and common_type are not covered",
    "the continuous phase is judged for continuity where the curve winds by up to a turn and a half around its end; modulo a turn everywhere",
]


def util():
    from phasor.utilities import np as unp
    return unp


# ------------------------------------------------------------------ sections
def section_cases(tier):
    for n in range(1, 11 if tier == 'quick' else 14):
        for head in itertools.product((0, 1), repeat=min(n, 4)):
            yield dict(n=n, head=list(head))


def runs(b):
    out = []
    i = 0
    while i < len(b):
        if b[i]:
            j = i
            while j < len(b) and b[j]:
                j += 1
            out.append((i, min(j, len(b) - 1)))
            i = j
        else:
            i += 1
    return out


def run_section(case, ctx):
    U = util()
    n = case['n']
    for tail in itertools.product((0, 1), repeat=n - len(case['head'])):
        b = np.array(case['head'] + list(tail), bool)
        base = runs(b)
        for rec in (None, 0, 1, 2, 4):
            want = []
            for s, e in base:
                if want and rec is not None and s - want[-1][1] <= rec:
                    want[-1] = (want[-1][0], e)
                else:
                    want.append((s, e))
            keep = b.copy()
            got = [(int(s), int(e)) for s, e in U.generate_sections(b, *(() if rec is None else (rec,)))]
            ctx.require(got == want, lambda: 'sections of {0} joined over {1}: {2}, expected {3}'.format(b.astype(int).tolist(), rec, got, want))
            ctx.require((keep == b).all(), 'the flags were modified')
            # the rest, between two limits
            for lo, hi in ((0, n - 1), (-1, n), (0, n)):
                anti = [(int(s), int(e)) for s, e in U.generate_antisections(lo, hi, got)]
                at = lo
                rest = []
                for s, e in want:
                    if not (s == lo):
                        rest.append((at, s))
                    at = e
                if not (want and at == hi):
                    rest.append((at, hi))
                ctx.require(anti == rest, lambda: 'between {0}: {1}, expected {2}'.format(want, anti, rest))
            ctx.step()
        ctx.state('s', b.astype(int).tolist())
        ctx.trace()
    ctx.cls('{0} flags'.format(n))


# ------------------------------------------------------------------ sorting and selecting
def sort_cases(tier):
    for n in range(1, 5 if tier == 'quick' else 6):
        for x in itertools.product((0., 1.5, 2., -3.), repeat=n):
            yield dict(x=list(x))


def run_sort(case, ctx):
    U = util()
    x = case['x']
    n = len(x)
    y = [10. * i + 1j for i in range(n)]
    for kind in ('list', 'array'):
        mk = list if kind == 'list' else np.array
        X, Y = mk(x), mk(y)
        out = U.domain_sort(X, Y, None, mk([7.]))
        ctx.require(len(out) == 4, 'domain_sort loses arguments')
        gx, gy, gn, g1 = out
        pairs = sorted(zip(x, [v.real for v in y]))
        ctx.require(list(gx) == sorted(x), lambda: 'sorted domain of {0}: {1}'.format(x, list(gx)))
        ctx.require(sorted(zip(list(gx), [complex(v).real for v in gy])) == pairs, lambda: 'values of {0} after sorting: {1}'.format(x, list(gy)))
        ctx.require(gn is None and list(g1) == [7.], 'absent and constant values after sorting')
        ctx.require(list(X) == x and list(Y) == y, 'domain_sort modifies its arguments')
        for lo, hi in itertools.product((-4., -3., 0., 1., 1.5, 2.), (-3., 0., 1.5, 1.9, 2., 3.)):
            gx, gy = U.interval_limit(lo, hi, X, Y)
            idx = [i for i in range(n) if lo <= x[i] <= hi]
            ctx.require(list(gx) == [x[i] for i in idx] and list(gy) == [y[i] for i in idx],
                        lambda: '{0} limited to {1}..{2}: {3}'.format(x, lo, hi, list(gx)))
            ctx.step()
        order = list(U.argsort(X))
        ctx.require(sorted(order) == list(range(n)) and [x[i] for i in order] == sorted(x), lambda: 'argsort of {0}: {1}'.format(x, order))
    for mask in itertools.product((False, True), repeat=n):
        got = [int(i) for i in U.masked_argsort(np.ma.array(x, mask=list(mask)))]
        idx = [i for i in range(n) if not mask[i]]
        ctx.require(sorted(got) == idx and [x[i] for i in got] == sorted(x[i] for i in idx), lambda: 'order of {0} masked by {1}: {2}'.format(x, mask, got))
        ctx.step()
    for p in range(n + 1):
        for dt in (float, complex):
            a = np.array([np.nan] * p + x, dt)
            got = U.first_non_NaN(a)
            ctx.require(got == p, lambda: 'first number of {0}: {1}'.format(a.tolist(), got))
    ctx.state('x', x)
    ctx.trace()
    ctx.cls('{0} entries'.format(n))


def nan_cases(tier):
    for n in range(1, 34 if tier == 'quick' else 70):
        yield dict(n=n)


def run_nan(case, ctx):
    U = util()
    n = case['n']
    for p in range(n + 1):
        for dt in (float, complex):
            a = np.array([np.nan] * p + [1.] * (n - p), dt)
            got = U.first_non_NaN(a)
            ctx.require(got == p, lambda: 'first number after {0} of {1}: {2}'.format(p, n, got))
            ctx.step()
        ctx.state('n', n, p)
    ctx.trace()
    ctx.cls('numbers')


# ------------------------------------------------------------------ phases
STEPS = [-2.8, -1., .4, 1.7, 2.8]


def phase_cases(tier):
    for n in (1, 2, 3, 4, 5) if tier == 'quick' else (1, 2, 3, 4, 5, 6):
        for st in itertools.product(STEPS, repeat=min(n, 2)):
            for start in (.3, -2., 3.):
                yield dict(n=n, st=list(st), start=start)


def run_phase(case, ctx):
    U = util()
    for tail in itertools.product(STEPS, repeat=case['n'] - len(case['st'])):
        st = case['st'] + list(tail)
        ph = case['start'] + np.concatenate([[0.], np.cumsum(st)])
        data = np.exp(1j * ph) * np.linspace(1, 2, len(ph))
        turns = np.round((ph - np.angle(data)) / (2 * np.pi))
        for op in {0, len(ph) // 2, len(ph) - 1}:
            keep = data.copy()
            got = U.continuous_phase(data, op_idx=op)
            ctx.require(bool((keep == data).all()), 'continuous_phase modifies its data')
            ctx.close(np.exp(1j * got), np.exp(1j * ph), lambda: 'phase of {0} from {1} modulo a turn'.format(st, case['start']), rtol=1e-9)
            if max(abs(turns - turns[-1])) < 1.5:
                ctx.close(np.diff(got), st, lambda: 'steps of the phase of {0} from {1}'.format(st, case['start']), rtol=1e-9)
                ctx.require(-np.pi - 1e-9 <= got[op] <= 3 * np.pi + 1e-9, lambda: 'phase at the operating point {0} of {1}: {2}'.format(op, st, got))
            ctx.close(U.continuous_phase(data, op_idx=op, deg=True), np.degrees(got), 'phase in degrees', rtol=1e-9)
            ctx.step()
        F = np.cumsum(1. + .2 * np.arange(len(ph)))
        gF, gd = U.group_delay(F, data)
        ctx.close(gF, F[1:], 'frequencies of the group delay', rtol=1e-12)
        ctx.close(gd, 3e8 * np.array(st) / np.diff(F), lambda: 'group delay of the phase steps {0}'.format(st), rtol=1e-9)
        ctx.close(U.group_delay(F, data, mult=2.)[1], 2. * np.array(st) / np.diff(F), lambda: 'scaled group delay of the phase steps {0}'.format(st), rtol=1e-9)
        ctx.state('p', st, case['start'])
        ctx.trace()
    ctx.cls('{0} steps'.format(case['n']))


def polar_cases(tier):
    for n in (12, 24, 36) if tier == 'quick' else (12, 24, 36, 120, 360):
        yield dict(n=n)


def run_polar(case, ctx):
    U = util()
    n = case['n']
    ang = 2 * np.pi * (np.arange(n) + .25) / n
    for mag in (0., 1e-9, .5, 3e7):
        v = mag * np.exp(1j * ang)
        for deg in (True, False):
            m, a = U.mag_phase_signed(v, deg=deg)
            r = np.radians(a) if deg else a
            ctx.close(m * np.exp(1j * r), v, 'signed magnitude and phase', rtol=1e-9, atol=1e-12 * mag)
            ctx.require(bool(np.all(np.isreal(m)) and np.all(r >= -np.pi / 4 - 1e-9) and np.all(r <= 3 * np.pi / 4 + 1e-9)), 'range of the signed phase')
            for i in range(n):
                mi, ai = U.mag_phase_signed(v[i], deg=deg)
                ctx.close([mi, ai], [m[i], a[i]], 'signed magnitude and phase of a number', rtol=1e-12, atol=1e-12)
            ctx.step()
    for lo, hi in itertools.permutations((1e-3, 1., 7., 1e6), 2):
        g = U.logspaced(lo, hi, n)
        ctx.require(len(g) == n, 'number of points')
        ctx.close([g[0], g[-1]], [lo, hi], 'ends of the logarithmic range', rtol=1e-9)
        ctx.close(g[1:] / g[:-1], np.ones(n - 1) * (hi / lo)**(1. / (n - 1)), 'ratios of the logarithmic range', rtol=1e-9)
        ctx.step()
    ctx.state('polar', n)
    ctx.trace()
    ctx.cls('polar')


FAMILIES = [
    Family('sections', section_cases, run_section, 'all arrays of up to 10 (13) flags, 5 joining lengths, the sections between them with 3 limits', chunk=8),
    Family('sorting', sort_cases, run_sort, 'all arrays of up to 4 (5) entries over 4 values, 36 intervals, all masks', chunk=8),
    Family('numbers', nan_cases, run_nan, 'all lengths of up to 33 (69) with all counts of missing numbers in front'),
    Family('phases', phase_cases, run_phase, 'all walks of up to 5 (6) steps of the phase over 5 steps, 3 starts and up to 3 operating points: continuous phase, group delay', chunk=8),
    Family('polar', polar_cases, run_polar, 'circles of points: signed magnitudes; logarithmic ranges'),
]
