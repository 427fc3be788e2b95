# -*- coding: utf-8 -*-
"""
The Complex pair type and the dispatched functions compute like complex numbers.
"""
import cmath
import itertools
import math
import operator
import numpy as np
from mc.core import Family

ASSUMPTIONS = [
    "oracle: the complex numbers of Python and numpy; tolerance 1e-9 relative",
    "a Complex of arrays is compared element by element; the left operand may not be an array (numpy then builds an object array)",
    "powers: integer and real exponents of nonzero bases, principal branch; complex exponents are not implemented (TypeError)",
    "divisions by zero, overflows and magnitudes above 1e8 are skipped",
]

OPS = dict(add=operator.add, sub=operator.sub, mul=operator.mul, div=operator.truediv)
PARTS = [0., 1., -2., .5, 3., -0.25]


def mods():
    from phasor.math import dispatched, numerics
    from phasor.math import complex as cm
    return cm, dispatched, numerics


def make(kind, re, im):
    """(object given to phasor, reference)"""
    cm, d, n = mods()
    if kind == 'C':
        return cm.Complex(re, im), complex(re, im)
    if kind == 'C1':
        return cm.Complex(complex(re, im)), complex(re, im)
    if kind == 'CA':
        a = np.array([re, re + 1, 2 - re])
        b = np.array([im, 1.5, im - 3])
        return cm.Complex(a, b), a + 1j * b
    if kind == 'c':
        return complex(re, im), complex(re, im)
    if kind == 'f':
        return float(re), complex(re)
    if kind == 'i':
        return int(2 * re), complex(int(2 * re))
    if kind == 'n':
        return np.float64(re), complex(re)
    if kind == 'nc':
        return np.complex128(complex(re, im)), complex(re, im)
    if kind == 'A':
        a = np.array([re, re - 1.5, 2. + re])
        return a, a + 0j
    if kind == 'Ac':
        a = np.array([re, re - 1.5, 2. + re]) + 1j * np.array([im, 1, -im])
        return a, a
    raise KeyError(kind)


def value(obj):
    cm, d, n = mods()
    if isinstance(obj, cm.Complex):
        return np.asarray(obj.real) + 1j * np.asarray(obj.imag)
    return np.asarray(obj)


def good(w):
    return np.all(np.isfinite(w)) and np.all(abs(w) < 1e8)


def bin_cases(tier):
    P = PARTS if tier != 'quick' else PARTS[:4]
    for ka in ['C', 'C1', 'CA']:
        for re, im in itertools.product(P, repeat=2):
            yield dict(ka=ka, re=re, im=im, parts=P)


def run_bin(case, ctx):
    cm, d, n = mods()
    a, ra = make(case['ka'], case['re'], case['im'])
    for kb in ['C', 'CA', 'c', 'f', 'i', 'n', 'nc', 'A', 'Ac']:
        for re, im in itertools.product(case['parts'], repeat=2):
            if kb in ('f', 'i', 'n', 'A') and im != case['parts'][0]:
                continue
            b, rb = make(kb, re, im)
            for name, op in OPS.items():
                for order in (0, 1):
                    if order and kb in ('A', 'Ac'):
                        continue
                    x, y, rx, ry = (a, b, ra, rb) if not order else (b, a, rb, ra)
                    if name == 'div' and not np.all(abs(np.asarray(ry))):
                        continue
                    want = op(np.asarray(rx), np.asarray(ry))
                    if not good(want):
                        continue
                    before = repr((x, y))
                    got = op(x, y)
                    ctx.step()
                    ctx.require(isinstance(got, cm.Complex), lambda: '{0} {1} {2} is not a Complex'.format(x, name, y))
                    ctx.close(value(got), want, lambda: '{0} {1} {2}'.format(x, name, y), rtol=1e-9, atol=1e-12)
                    ctx.require(repr((x, y)) == before, lambda: '{0} changed its operands'.format(name))
                    ctx.state(name, str(x), str(y))
            if np.ndim(ra) == 0 and np.ndim(rb) == 0:
                for x, y, rx, ry in ((a, b, ra, rb), (b, a, rb, ra)):
                    ctx.require((x == y) is (rx == ry) or bool(x == y) == bool(rx == ry), lambda: '{0} == {1} is {2}'.format(x, y, x == y))
                    ctx.require(bool(x != y) == bool(rx != ry), lambda: '{0} != {1} is {2}'.format(x, y, x != y))
                if isinstance(b, cm.Complex) and ra == rb:
                    ctx.require(hash(a) == hash(b), lambda: 'equal numbers {0} with different hashes'.format(a))
    if np.ndim(ra) == 0:
        for other in (None, 'text', (), object()):
            ctx.require(bool(a == other) is False and bool(a != other) is True, lambda: '{0} compared to {1!r}'.format(a, other))
    ctx.trace()
    ctx.cls(case['ka'])


def un_cases(tier):
    P = PARTS if tier == 'quick' else PARTS + [7.5, -11., 1e-3, 1e3]
    for ka in ['C', 'CA']:
        for re, im in itertools.product(P, repeat=2):
            yield dict(ka=ka, re=re, im=im)


EXPONENTS = [-7, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 24, 2., 3., -2., 0., 6., .5, 1.5, -.5, 1. / 3, 2.7, -1.2]


def run_un(case, ctx):
    cm, d, n = mods()
    a, ra = make(case['ka'], case['re'], case['im'])
    scalar = np.ndim(ra) == 0

    def chk(name, got, want, tol=1e-9):
        ctx.step()
        ctx.close(value(got), want, lambda: '{0} of {1}'.format(name, a), rtol=tol, atol=1e-11)
    chk('neg', -a, -ra)
    chk('pos', +a, ra)
    chk('abs', abs(a), abs(ra))
    chk('abs_sq', a.abs_sq(), abs(ra)**2)
    chk('conjugate', a.conjugate(), np.conj(ra))
    chk('dispatched abs', d.abs(a), abs(ra))
    chk('dispatched abs_sq', d.abs_sq(a), abs(ra)**2)
    chk('dispatched conjugate', d.conjugate(a), np.conj(ra))
    chk('re', d.re(a), np.real(ra))
    chk('im', d.im(a), np.imag(ra))
    ctx.require(bool(d.zero_check_heuristic(a)) == bool(np.all(ra == 0)), lambda: 'zero check of {0}'.format(a))
    ctx.require(not d.check_symbolic_type(a), lambda: 'symbolic check of {0}'.format(a))
    if np.all(abs(np.real(ra)) < 10):
        chk('exp', d.exp(a), np.exp(ra))
    if scalar and ra != 0:
        chk('angle', d.angle(a), cmath.phase(ra))
        chk('angle in degrees', d.angle(a, deg=True), math.degrees(cmath.phase(ra)))
    if not scalar:
        for i in range(3):
            chk('item', a[i], ra[i])
        chk('slice', a[:2], ra[:2])
    for e in EXPONENTS:
        if not scalar and e != int(e):
            continue
        if np.any(np.asarray(ra) == 0):
            if e < 0 or e == 0 or e != int(e):
                continue
        want = np.asarray(ra)**e
        if not good(want):
            continue
        ctx.state(case['ka'], case['re'], case['im'], e)
        chk('power {0!r}'.format(e), a**e, want)
    ctx.trace()
    ctx.cls('{0} {1}'.format(case['ka'], 'zero' if scalar and ra == 0 else 'nonzero'))


EXPR_OPS = ['add', 'sub', 'mul', 'div']


def expr_cases(tier):
    leaves = [('C', 1.5, -2.), ('c', -1., .5), ('f', 2.5, 0), ('CA', .5, 2.), ('nc', .25, 3.), ('i', -1., 0)]
    leaves = leaves if tier != 'quick' else leaves[:5]
    for l0, l1 in itertools.product(leaves, repeat=2):
        yield dict(l0=l0, l1=l1, leaves=leaves, depth=3)


def run_expr(case, ctx):
    """all expressions ((l0 op l1) op l2) op (l3 op l4) ..."""
    cm, d, n = mods()
    leaves = [make(*l) for l in case['leaves']]
    x = make(*case['l0'])
    y = make(*case['l1'])

    def combine(p, q, op):
        (a, ra), (b, rb) = p, q
        if isinstance(a, np.ndarray):
            return None
        if op == 'div' and not np.all(abs(np.asarray(rb)) > 1e-6):
            return None
        w = OPS[op](np.asarray(ra), np.asarray(rb))
        if not good(w):
            return None
        ctx.step()
        return OPS[op](a, b), w
    level = []
    for op in EXPR_OPS:
        r = combine(x, y, op)
        if r is not None:
            level.append((r, (case['l0'], op, case['l1'])))
    for depth in range(case['depth']):
        for (o, w), path in level:
            ctx.trace()
            ctx.close(value(o), w, lambda: 'expression {0}'.format(path), rtol=1e-8, atol=1e-9 * max(1., abs(w).max()))
        if depth == case['depth'] - 1:
            break
        nxt = []
        for r, path in level:
            for li, leaf in enumerate(leaves):
                for op in EXPR_OPS:
                    for swap in (0, 1):
                        q = combine(r, leaf, op) if not swap else combine(leaf, r, op)
                        if q is not None:
                            nxt.append((q, (path, op, li, swap)))
        level = nxt
    ctx.state(case)
    ctx.cls('expr')


def num_cases(tier):
    n = 14 if tier == 'quick' else 18
    for hi in range(0, 1 << n, 1 << 10):
        yield dict(t='low', lo=hi)
    width = 120 if tier == 'quick' else 200
    for a in range(0, width, 3):
        yield dict(t='sparse', a=a, width=width)
    for a in PARTS:
        yield dict(t='interp', a=a)


def run_num(case, ctx):
    cm, d, n = mods()
    if case['t'] == 'low':
        for k in range(case['lo'], case['lo'] + (1 << 10)):
            got = list(n.yield_bits_on(k))
            ctx.step()
            ctx.require(got == [i for i in range(k.bit_length()) if k >> i & 1], lambda: 'bits of {0}: {1}'.format(k, got))
    elif case['t'] == 'sparse':
        for b in range(case['width']):
            for c in range(0, case['width'], 7):
                for base in (0, 5 << 33):
                    k = base | 1 << case['a'] | 1 << b | 1 << c
                    got = list(n.yield_bits_on(k))
                    ctx.step()
                    ctx.require(got == [i for i in range(k.bit_length()) if k >> i & 1], lambda: 'bits of {0}: {1}'.format(k, got))
    else:
        for b in PARTS:
            for x in (0., .25, .5, 1., 2.):
                ctx.close(n.linear_interpolate(case['a'], b, x), case['a'] * (1 - x) + b * x, 'interpolation', rtol=1e-12)
                ctx.step()
    ctx.state(case)
    ctx.trace()
    ctx.cls(case['t'])


REAL_FUNCS = ['sin', 'cos', 'tan', 'exp', 'sqrt', 'log', 'sinh', 'cosh', 'tanh', 'asin', 'acos', 'atan', 'asinh', 'acosh', 'atanh']
NP = dict(asin='arcsin', acos='arccos', atan='arctan', asinh='arcsinh', acosh='arccosh', atanh='arctanh')


def fn_cases(tier):
    for name in REAL_FUNCS:
        for kind in ['int', 'float', 'complex', 'np.float64', 'np.complex128', 'array', 'carray']:
            yield dict(f=name, kind=kind)


def run_fn(case, ctx):
    cm, d, n = mods()
    f = getattr(d, case['f'])
    ref = getattr(np, NP.get(case['f'], case['f']))
    kind = case['kind']
    for x in [.3, .75, 1., 1.5, 2., -.4, 3.25]:
        for y in ([0.] if kind in ('int', 'float', 'np.float64', 'array') else [.5, -1.25]):
            if kind == 'int':
                v = int(round(x))
            elif kind == 'float':
                v = x
            elif kind == 'np.float64':
                v = np.float64(x)
            elif kind == 'complex':
                v = complex(x, y)
            elif kind == 'np.complex128':
                v = np.complex128(complex(x, y))
            elif kind == 'array':
                v = np.array([x, x / 2, .5])
            else:
                v = np.array([x, x / 2]) + 1j * y
            with np.errstate(all='ignore'):
                want = ref(v)
            if not np.all(np.isfinite(want)):
                continue
            got = f(v)
            ctx.step()
            ctx.state(case, x, y)
            ctx.close(got, want, lambda: '{0}({1!r})'.format(case['f'], v), rtol=1e-9)
    ctx.trace()
    ctx.cls(kind)


FAMILIES = [
    Family('binary', bin_cases, run_bin, 'scalar and array Complex over 4x4 (6x6) components, with 9 kinds of second operand in both orders, 4 operations, comparisons, hashes'),
    Family('unary', un_cases, run_un, '2 kinds over 6x6 (10x10) components: negation, modulus, conjugate, exp, angle, items, 29 exponents'),
    Family('expressions', expr_cases, run_expr, 'all expressions ((l0 op l1) op l2) op l3, in both orders, over 5 (6) leaves of different types'),
    Family('numerics', num_cases, run_num, 'bits of all integers below 2^14 (2^18) and of integers of 120 (200) bits with few bits on; interpolation'),
    Family('functions', fn_cases, run_fn, '15 elementary functions x 7 types of argument x 7 values wherever the value is finite'),
]
