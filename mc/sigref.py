# -*- coding: utf-8 -*-
"""
Reference spectra of signal networks: a signal is a dictionary {(n1, n2): c} of the coefficients of exp(i (n1 w1 + n2 w2) t)
together with a dictionary of the part which is first order in a drive exp(+i w_AC t) of unit amplitude convention.
"""
import numpy as np

FC = (1e6, 3.7e6)      # generators
FAC_CENTER = 1e3       # the centre used by the system for the AC frequency


class Sig(object):
    """c0: {n: coefficient}, c1: {n: coefficient of the upper AC sideband of n}"""

    def __init__(self, c0=None, c1=None):
        self.c0 = dict(c0 or {})
        self.c1 = dict(c1 or {})


def freq(n):
    return sum(a * f for a, f in zip(n, FC))


def add(a, b):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + v
    return r


def conv(a, b):
    r = {}
    for k, v in a.items():
        for l, w in b.items():
            m = tuple(x + y for x, y in zip(k, l))
            r[m] = r.get(m, 0) + v * w
    return r


def mapf(d, f):
    return dict((k, v * f(k)) for k, v in d.items())


def prod(x, y):
    return Sig(conv(x.c0, y.c0), add(conv(x.c0, y.c1), conv(x.c1, y.c0)))


def plus(x, y):
    return Sig(add(x.c0, y.c0), add(x.c1, y.c1))


def hilbert(x, F_AC):
    return Sig(mapf(x.c0, lambda n: 1j * np.sign(freq(n))), mapf(x.c1, lambda n: 1j * np.sign(freq(n) + F_AC)))


def rotate(x, ph):
    return Sig(mapf(x.c0, lambda n: np.exp(1j * ph * np.sign(freq(n)))), mapf(x.c1, lambda n: np.exp(1j * ph * np.sign(freq(n) + FAC_CENTER))))


def filt(x, H, F_AC, no_dc=False):
    c0 = dict((n, v * H(freq(n))) for n, v in x.c0.items() if not (no_dc and freq(n) == 0))
    return Sig(c0, mapf(x.c1, lambda n: H(freq(n) + F_AC)))


def square(x):
    """square of the analytic signal, and its conjugate; amplitudes (not coefficients) are squared"""
    def sgn(n, off=0):
        return np.sign(freq(n) + off)
    c0 = {}
    c1 = {}
    for k, v in x.c0.items():
        for l, w in x.c0.items():
            if sgn(k) * sgn(l) > 0:
                m = tuple(a + b for a, b in zip(k, l))
                c0[m] = c0.get(m, 0) + 2 * v * w
        for l, w in x.c1.items():
            if sgn(k) * sgn(l, FAC_CENTER) > 0:
                m = tuple(a + b for a, b in zip(k, l))
                c1[m] = c1.get(m, 0) + 4 * v * w
    return Sig(c0, c1)


def meansq(x):
    return Sig({(0, 0): sum(v * x.c0.get(tuple(-a for a in n), 0) for n, v in x.c0.items())})


def amplitude(n, c):
    return c if n == (0, 0) else 2 * c


def span(x):
    return max([max(abs(a) for a in n) for n in list(x.c0) + list(x.c1)] or [0])
