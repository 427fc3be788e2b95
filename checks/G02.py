# -*- coding: utf-8 -*-
"""
Designed filters: Legendre filters, library of loop controllers, algebra of zeros and poles.
"""
import itertools
from fractions import Fraction as Fr
import numpy as np
from mc.core import Family

ASSUMPTIONS = [
    "oracle of the Legendre filters: the integral of the squared sum of Legendre polynomials in exact rational arithmetic, the closed form of the slope at the edge of the band, the modulus of the response on the imaginary axis",
    "oracle of the controllers: the closed form of the Chebyshev and Butterworth responses their building blocks are the quotients of, the product of their factors, invariance under scaling of frequency",
    "the sign of the gain of a controller given as rational filter is not judged",
]


# ------------------------------------------------------------------ Legendre filters
def padd(a, b):
    n = max(len(a), len(b))
    return [(a[i] if i < len(a) else 0) + (b[i] if i < len(b) else 0) for i in range(n)]


def pmul(a, b):
    out = [Fr(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] += x * y
    return out


def legendre(n):
    p = [[Fr(1)], [Fr(0), Fr(1)]]
    while len(p) <= n:
        k = len(p)
        p.append(padd([Fr(2 * k - 1, k) * x for x in pmul([Fr(0), Fr(1)], p[k - 1])], [Fr(-(k - 1), k) * x for x in p[k - 2]]))
    return p[n]


def optimum(N):
    """coefficients of w^0, w^1, ... w^(2N)"""
    if N == 0:
        return [Fr(0)]
    if N % 2:
        k = (N - 1) // 2
        v = [Fr(0)]
        for i in range(k + 1):
            v = padd(v, [(2 * i + 1) * x for x in legendre(i)])
        f = [x / (2 * (k + 1)**2) for x in pmul(v, v)]
    else:
        k = (N - 2) // 2
        v = [Fr(0)]
        for i in range(k % 2, k + 1, 2):
            v = padd(v, [(2 * i + 1) * x for x in legendre(i)])
        f = [x / ((k + 1) * (k + 2)) for x in pmul([Fr(1), Fr(1)], pmul(v, v))]
    prim = [Fr(0)] + [x / (i + 1) for i, x in enumerate(f)]
    at = sum(x * (-1)**i for i, x in enumerate(prim))
    y = [Fr(-1), Fr(0), Fr(2)]
    out, pw = [-at], [Fr(1)]
    for x in prim:
        out = padd(out, [x * c for c in pw])
        pw = pmul(pw, y)
    return out


def legendre_cases(tier):
    for N in range(0, 19 if tier == 'quick' else 26):
        yield dict(N=N)


def run_legendre(case, ctx):
    from phasor.signals.filters import legendre_filters as L
    N = case['N']
    got = [int(x) for x in list(L.optimum_poly(N))[::-1]]
    want = optimum(N)
    while len(want) > 1 and want[-1] == 0:
        want.pop()
    while len(got) > 1 and got[-1] == 0:
        got.pop()
    ctx.require(all(w.denominator == 1 for w in want), 'oracle')
    ctx.require(got == [int(w) for w in want], lambda: 'polynomial of order {0}: {1}, expected {2}'.format(N, got, [int(w) for w in want]))
    val = lambda x: sum(c * Fr(x)**i for i, c in enumerate(got))
    slope = lambda x: sum(i * c * Fr(x)**(i - 1) for i, c in enumerate(got) if i)
    if N:
        k = (N - 1) // 2
        ctx.require(val(0) == 0 and val(1) == 1, 'ends of the band')
        ctx.require(slope(1) == (2 * (k + 1)**2 if N % 2 else 2 * (k + 1) * (k + 2)), lambda: 'slope at the edge of the band, order {0}'.format(N))
        for i in range(0, 61):
            ctx.require(slope(Fr(i, 60)) >= 0, lambda: 'order {0} is not monotonic'.format(N))
    ctx.step(2)
    have = L.mpmath_available
    for use in (True, False):
        if use and not have or not use and N > 12:
            continue
        L.mpmath_available = use
        try:
            z, p, g = L.legendreap(N)
        finally:
            L.mpmath_available = have
        p = np.asarray(p, complex)
        ctx.require(len(z) == 0 and len(p) == N, lambda: '{0} zeros and {1} poles of order {2}'.format(len(z), len(p), N))
        ctx.require(bool(np.all(p.real < 0)), 'stability')
        tol = 1e-9 if use else 1e-4
        for x in p:
            ctx.require(bool(np.min(abs(p - np.conj(x))) < tol), 'poles in conjugate pairs')
        for w in np.concatenate([np.linspace(0, 2, 41), [-.7, 10.]]):
            h = g / np.prod(1j * w - p)
            ref = 1. / (1 + float(val(Fr(float(w)).limit_denominator(10**6)) if N else 0))
            ctx.close(abs(h)**2, ref, lambda: 'power at {0} of order {1}'.format(w, N), rtol=1e-7 if use else 1e-3)
        ctx.close(g / np.prod(-p), 1., 'response at zero frequency', rtol=1e-9 if use else 1e-4)
        ctx.step()
    ctx.state(N)
    ctx.trace()
    ctx.cls('legendre')


# ------------------------------------------------------------------ algebra of zeros and poles
ROOTS = [-.4, -2., -.3 + .7j, -.3 - .7j, -1.5 - 4j]
SETS = [[], [-.4], [-.3 + .7j, -.3 - .7j], [-2., -1.5 - 4j], [-.4, -2., -.3 + .7j, -.3 - .7j]]
W = np.array([0., .1, -.8, 1., 3.3, -20.])


def H(zpk, w):
    z, p, k = zpk
    s = 1j * np.asarray(w, float)
    out = k * np.ones(s.shape, complex)
    for r in z:
        out = out * (s - r)
    for r in p:
        out = out / (s - r)
    return out


def algebra_cases(tier):
    for a in range(len(SETS)):
        for b in range(len(SETS)):
            yield dict(a=a, b=b)


def run_algebra(case, ctx):
    from phasor.signals import power_loops as L
    A = (SETS[case['a']], SETS[case['b']], -1.7)
    for c, d in itertools.product(range(len(SETS)), repeat=2):
        for k in (1., .3, -2.):
            B = (SETS[c], SETS[d], k)
            ctx.close(H(L.zpk_mult(A, B), W), H(A, W) * H(B, W), lambda: 'product of {0} and {1}'.format(A, B), rtol=1e-11)
            ctx.close(H(L.zpk_div(A, B), W), H(A, W) / H(B, W), lambda: 'quotient of {0} and {1}'.format(A, B), rtol=1e-11)
            ctx.close(H(L.zpk_mult(A, B, A), W), H(A, W)**2 * H(B, W), 'product of three', rtol=1e-11)
            ctx.step(3)
    for w0 in (0., .5, 7.):
        got = H(L.shift_to(A, w0), W)
        with np.errstate(all='ignore'):
            s = 1j * W
            want = H(A, W - w0) * np.conj(H(A, -(W + w0))) * ((s + w0 / 2.) / (s + w0 * .8) if w0 else 1.)
        if w0:
            ctx.close(got, want, lambda: 'shift of {0} to {1}'.format(A, w0), rtol=1e-9)
        ctx.step()
    # all orders of real roots and conjugate pairs
    roots = [complex(r) for r in SETS[case['a']] + SETS[case['b']]]
    for perm in itertools.islice(itertools.permutations(roots), 24):
        r, cp, cn = L.sort_roots(list(perm))
        ctx.require(sorted(r) == sorted(x.real for x in roots if x.imag == 0), lambda: 'real roots of {0}: {1}'.format(perm, r))
        ctx.require(all(np.isreal(x) for x in r), 'real roots are real')
        key = lambda x: (x.real, x.imag)
        ctx.require(sorted(cp, key=key) == sorted((x for x in roots if x.imag > 0), key=key), lambda: 'upper roots of {0}: {1}'.format(perm, cp))
        ctx.require(sorted(cn, key=key) == sorted((x for x in roots if x.imag < 0), key=key), lambda: 'lower roots of {0}: {1}'.format(perm, cn))
        ctx.step()
    ctx.state(case)
    ctx.trace()
    ctx.cls('algebra')


# ------------------------------------------------------------------ controllers
UGFS = [.02, 1., 37.]
NORMED = dict(ledge_controller=('shift', 'N'), ledge_boost=('shift', 'N'), cheby_boost=('shift',), cheby_boost_7=('shift',))
CTRL = ['controller_10x1e3_20x1e8', 'controller_20x1e9', 'controller_fast_2p5x1e1']
X = np.array([.01, .2, .9, 1., 1.3, 8., 100.])


def cheb(n, ripple, edge, x):
    t = np.polynomial.chebyshev.chebval(x / edge, [0] * n + [1])
    return (1 + (10**(ripple / 10.) - 1) * t**2)**-.5


def butter(n, edge, x):
    return (1 + (x / edge)**(2 * n))**-.5


def block(name, N, x):
    """modulus of the response of the building blocks"""
    s = 1j * x
    if name == 'cheby_boost_7':
        return abs((s + 1 - 1j) / (s + .1 - 1j) / (s + .01)**7) / cheb(7, .2, 1., x)
    if name == 'cheby_boost':
        return abs(((s + .7)**2 + 1) / ((s + .2)**2 + 1) / (s + .01)**6) / cheb(3, .2, 1., x) / cheb(3, .2, .8, x)
    out = cheb(N + 2, .3, 1., x) / cheb(N, .3, 1., x) * cheb(1, 1., 3., x)
    if name == 'ledge_controller':
        return out / butter(2, 2., x)
    return out / butter(3, 2., x) * abs(((s + 2.4)**2 + 1.5**2) / ((s + 1.2)**2 + 1.5**2))


def control_cases(tier):
    for name in sorted(NORMED):
        for shift in (1., 4., 15.) if tier == 'quick' else (.5, 1., 4., 15., 25.):
            for N in ((2, 3, 4) if 'N' in NORMED[name] else (None,)):
                yield dict(name=name, shift=shift, N=N)
    for name in CTRL:
        for U in UGFS:
            yield dict(ctrl=name, U=U)


def run_control(case, ctx):
    from phasor.signals import power_loops as L
    import phasor.system as system
    if 'name' in case:
        kw = dict(shift=case['shift'])
        if case['N']:
            kw['N'] = case['N']
        ref = None
        for F in UGFS:
            zpk = getattr(L, case['name'])(F_center=F, **kw)
            z, p, k = zpk
            ctx.require(bool(np.all(np.real(p) < 0)), lambda: 'stability of {0}'.format(case))
            ctx.require(bool(np.all(np.real(z) < 0)), lambda: 'zeros of {0}'.format(case))
            h = H(zpk, F * X)
            ctx.close(abs(H(zpk, [F])), [1.], lambda: 'gain of {0} at its frequency {1}'.format(case, F), rtol=1e-7)
            if ref is None:
                ref = h
            ctx.close(h, ref, lambda: 'response of {0} relative to its frequency {1}'.format(case, F), rtol=1e-7, atol=0)
            w = block(case['name'], case['N'], X * case['shift']) / block(case['name'], case['N'], case['shift'])
            ctx.close(abs(h), w, lambda: 'modulus of the response of {0}'.format(case), rtol=1e-7, atol=0)
            ctx.step(4)
        if case['name'].startswith('ledge'):
            for s in ('z', 'p'):
                r = np.asarray(dict(z=z, p=p)[s], complex)
                for x in r:
                    ctx.require(bool(np.min(abs(r - np.conj(x))) < 1e-9 * abs(x)), 'roots in conjugate pairs')
        ctx.cls(case['name'])
    else:
        from phasor.signals.ZPSOS import SRationalFilter
        U = case['U']
        zpk = getattr(L, case['ctrl'])(U)
        d = getattr(L, case['ctrl'])(U, out='SRationalFilter')
        ctx.require(bool(np.all(np.real(zpk[0]) < 0) and np.all(np.real(zpk[1]) < 0)), 'stability')
        n = lambda t: len(d[t + '_r']) + 2 * len(d[t + '_c'])
        ctx.require(n('zeros') == len(zpk[0]) and n('poles') == len(zpk[1]), lambda: 'roots of {0} lost'.format(case))
        sys = system.BGSystem(F_AC=U * X)
        from phasor import signals as sg
        import phasor.readouts as ro
        sys.own.f = SRationalFilter(**d)
        sys.own.g = sg.Gain(gain=1.)
        sys.bond(sys.f.ps_Out, sys.g.ps_In)
        sys.own.R = ro.ACReadout(portD=sys.f.ps_In.i, portN=sys.g.ps_Out.o)
        got = np.asarray(sys.R.AC_sensitivity)
        want = H(zpk, U * X)
        i = list(X).index(1.)
        ctx.close(abs(got[i]), 1., 'unit gain at the frequency asked for', rtol=1e-7)
        ctx.close(got / got[i], want / want[i], lambda: 'response of {0} as rational filter'.format(case), rtol=1e-4, atol=0)
        ctx.step(3)
        ctx.cls(case['ctrl'])
    ctx.state(case)
    ctx.trace()


FAMILIES = [
    Family('legendre', legendre_cases, run_legendre, 'Legendre filters of orders 0 to 18 (25), roots with and without mpmath, 43 frequencies', chunk=1),
    Family('algebra', algebra_cases, run_algebra, '5 sets of roots as zeros and poles of both factors of products and quotients, shifts, all orders of roots', chunk=2),
    Family('controllers', control_cases, run_control, '4 building blocks x 3 (5) shifts x orders and 3 controllers at 3 frequencies: gain, scaling, stability, conversion to the rational filter of a network', chunk=1),
]
