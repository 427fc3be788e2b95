# -*- coding: utf-8 -*-
"""
Numbers written for the user: lengths with prefixes, beams, optics, ticks.
"""
import itertools
import re
from fractions import Fraction
import numpy as np
from mc.core import Family

ASSUMPTIONS = [
    "a text is read as the decimal number in it times the power of ten of its SI prefix (k, c, m, u, n, p, f, a, z)",
    "it must be within half a digit of the precision asked for, relative to the number (absolute below 1e-21)",
    "ticks: the values a logarithmic locator produces (a digit times a power of ten, and integers below 100)",
]

PREFIX = {'': 0, 'k': 3, 'c': -2, 'm': -3, u'μ': -6, 'u': -6, 'n': -9, 'p': -12, 'f': -15, 'a': -18, 'z': -21, 'M': 6, 'G': 9}


def read(text, unit):
    m = re.match(u'^(-?[0-9]+(?:\\.[0-9]*)?)([kcmuμnpfazMG]?)' + re.escape(unit) + '$', text)
    if m is None:
        return None
    return Fraction(m.group(1)) * Fraction(10) ** PREFIX[m.group(2)]


MANT = ['1', '1.0000001', '1.04', '1.5', '2.5', '4.999', '7', '9.96', '9.9999999']


def judge(ctx, text, v, unit, d, what):
    r = read(text, unit)
    ctx.require(r is not None, lambda: '{0} of {1!r}: {2!r} is not a number with a prefix and the unit'.format(what, v, text), 'text')
    fv = Fraction(float(v))
    err = abs(r - fv)
    lim = Fraction(1, 2) / 10**min(d, 2 + d) * max(abs(fv), Fraction(1, 10**21))
    ctx.require(err <= lim * (1 + Fraction(1, 10**9)), lambda: '{0} of {1!r} with {2} digits: {3!r}'.format(what, v, d, text), 'value')
    return r


# ------------------------------------------------------------------ lengths
def length_cases(tier):
    for e in range(-24 if tier == 'quick' else -40, 8 if tier == 'quick' else 14):
        yield dict(e=e)


def run_length(case, ctx):
    from phasor.alm.utils import unit_str, str_m
    for m in MANT:
        for sign in ('', '-'):
            v = float('{0}{1}e{2}'.format(sign, m, case['e']))
            for form in (v, np.float64(v), np.array(v)):
                for d, use_c in itertools.product(range(0, 7), (False, True)):
                    for unit in ('m', 'rad', ''):
                        text = unit_str(form, unit, d=d, use_c=use_c)
                        judge(ctx, text, v, unit, d, 'text')
                    if unit == '':
                        t2 = str_m(form, d=d, use_c=use_c)
                        ctx.require(t2 == unit_str(form, 'm', d=d, use_c=use_c), lambda: 'str_m({0!r}) is {1!r}'.format(v, t2))
                    ctx.require(text.startswith('-') == (v < 0), lambda: 'sign of {0!r}'.format(text))
                judge(ctx, str_m(form), v, 'm', 1, 'text')
                judge(ctx, unit_str(form, unit='m'), v, 'm', 3, 'text')
            ctx.step()
        ctx.state(case['e'], m)
    if case['e'] == 0:
        for z in (0, 0., -0., np.float64(0)):
            ctx.require(read(unit_str(z, 'm'), 'm') == 0, 'text of zero')
        for n in range(-130, 131):
            judge(ctx, unit_str(n, 'm'), n, 'm', 3, 'text of the integer') if n else None
        ctx.require('nan' in unit_str(float('nan'), 'm'), 'text of a missing number')
        ctx.require('inf' in unit_str(float('inf'), 'm'), 'text of infinity')
    ctx.trace()
    ctx.cls('length')


# ------------------------------------------------------------------ beams
ZS = [0., 1e-30, -1e-22, 3e-17, -2e-9, 4.2e-5, -.03, .5, -1., 12.34, -250., 3e3, 1e7]
ZRS = [1e-9, 3e-6, 1e-3, .047, 1., 9.99, 120., 8e4]


def beam_cases(tier):
    for z in ZS:
        yield dict(z=z)


def run_beam(case, ctx):
    from phasor.alm.beam_param import ComplexBeamParam
    z = case['z']
    for zr, lam in itertools.product(ZRS, (1.064e-6, 532e-9, 1.55e-6)):
        q = ComplexBeamParam.from_Z_ZR(z, zr, wavelen=lam)
        text = str(q)
        m = re.match(u'^Q\\(ZR=(.*), Z=(.*), W0=(.*), W=(.*), R=(.*), λ=(.*)nm\\)$', text)
        ctx.require(m is not None, lambda: 'text of the beam: {0!r}'.format(text))
        w0 = (lam * zr / np.pi)**.5
        want = [zr, z, w0, w0 * (1 + (z / zr)**2)**.5]
        for name, got, w in zip(('ZR', 'Z', 'W0', 'W'), m.groups(), want):
            if w == 0:
                ctx.require(read(got, 'm') == 0, lambda: '{0} of {1!r}: {2!r}'.format(name, w, text))
            else:
                # the beam computes it with rounding: compare with one digit
                r = read(got, 'm')
                ctx.require(r is not None and abs(float(r) - w) <= .0501 * max(abs(w), 1e-21), lambda: '{0} of {1!r}: {2!r}'.format(name, w, text), 'beam')
        R = m.group(5)
        if z == 0:
            ctx.require(R == '1/0', lambda: 'radius of curvature at the waist: {0!r}'.format(text))
        elif R != '1/0':
            r = read(R, 'm')
            w = z + zr**2 / z
            ctx.require(r is not None and abs(float(r) - w) <= .0501 * abs(w), lambda: 'radius {0!r}: {1!r}'.format(w, text), 'beam')
        else:
            ctx.require(abs(z) < 1e-20 * zr, lambda: 'radius of curvature of {0}: {1!r}'.format(z, text))
        ctx.require(m.group(6) == '%.0f' % (lam * 1e9), lambda: 'wavelength: {0!r}'.format(text))
        ctx.step()
    ctx.state('beam', z)
    ctx.trace()
    ctx.cls('beam')


# ------------------------------------------------------------------ optics
CURV = [-20., -1.5, -.26, .05, .7, 3., 4000.]


def optic_cases(tier):
    for kind in ('ThinLens', 'PLCX', 'CXCX', 'Mirror', 'PLCXMirror', 'flat'):
        for R in (CURV if kind != 'flat' else [0.]):
            yield dict(kind=kind, R=R)


def run_optic(case, ctx):
    import phasor.alm as alm
    kind = case['kind']
    for loc, other in itertools.product((0., .31, 12.7), CURV):
        R = case['R']
        sys = alm.RootSystem()
        sys.own.t = alm.BeamTarget(loc_m=loc - 1, q_raw=alm.ComplexBeamParam.from_Z_ZR(.1, .4))
        if kind == 'ThinLens':
            sys.own.x = alm.ThinLens(f_m=R, loc_m=loc)
        elif kind == 'PLCX':
            sys.own.x = alm.PLCX(R_m=R, L_m=.005, loc_m=loc)
        elif kind == 'CXCX':
            sys.own.x = alm.CXCX(R1_m=R, R2_m=other, L_m=.005, loc_m=loc)
        elif kind == 'Mirror':
            sys.own.x = alm.Mirror(R_m=R, loc_m=loc)
        elif kind == 'PLCXMirror':
            sys.own.x = alm.PLCXMirror(R_m=R, L_m=.005, loc_m=loc)
        else:
            sys.own.x = alm.Mirror(R_m=None, loc_m=loc)
        ds = list(sys.measurements.lens_descriptions()) + list(sys.measurements.mirror_descriptions())
        ctx.require(len(ds) == 1, lambda: '{0} descriptions of one optic'.format(len(ds)))
        d = ds[0]
        ctx.close(d.z, 1., 'place of the optic', rtol=1e-9, atol=1e-9)
        text = d.str
        if kind == 'flat':
            ctx.require(text == 'Mirror, flat', lambda: 'text of a flat mirror: {0!r}'.format(text))
            ctx.step()
            break
        C = float(sys.own.x.matrix[1, 0])
        words = dict(re.findall('([A-Za-z0-9]+_m) ?= ?([^ ,]+)', text))
        want = dict(f_m=-1 / C)
        if kind == 'CXCX':
            want.update(R1_m=R, R2_m=other)
        elif kind != 'ThinLens':
            want.update(R_m=R)
        ctx.require(set(words) == set(want), lambda: 'text of {0}: {1!r}'.format(case, text))
        for k, w in want.items():
            if abs(w) > 1e12:
                continue
            r = read(words[k], 'm')
            ctx.require(r is not None and abs(float(r) - w) <= .0501 * abs(w), lambda: '{0} = {1!r} in {2!r}'.format(k, w, text), 'optic')
        ctx.step()
        if kind != 'CXCX' and other == CURV[0] and loc == 12.7:
            break
    ctx.state(kind, case['R'])
    ctx.trace()
    ctx.cls(kind)


# ------------------------------------------------------------------ ticks
def tick_cases(tier):
    r = 19 if tier == 'quick' else 60
    for e in range(-r, r):
        yield dict(e=e)


def run_tick(case, ctx):
    import matplotlib
    matplotlib.use('Agg')
    from phasor.utilities.mpl.logticks import ticks_log_format
    e = case['e']
    for m in range(1, 10):
        want = Fraction(m) * Fraction(10)**e
        forms = [float('%de%d' % (m, e)), m * 10.**e, m / 10.**(-e), np.float64(m) * np.power(10., e), float(np.exp(np.log(10.) * e)) * m, 10.**(e + np.log10(m))]
        for v in forms + [np.nextafter(forms[0], 0), np.nextafter(forms[0], np.inf)]:
            text = ticks_log_format(v, 0)
            k = re.match('^\\$([0-9.]+)(?:\\\\times10\\^\\{(-?[0-9]+)\\})?\\$$', text)
            ctx.require(k is not None, lambda: 'label of {0!r}: {1!r}'.format(v, text))
            got = Fraction(k.group(1)) * Fraction(10)**int(k.group(2) or 0)
            ctx.require(got == want, lambda: 'the tick at {0!r} is labelled {1!r}'.format(v, text), 'tick')
            ctx.step()
        ctx.state('tick', e, m)
    if e == 0:
        for n in range(1, 100):
            for v in (n, float(n), np.float64(n)):
                ctx.require(ticks_log_format(v, 0) == '${0}$'.format(n), lambda: 'label of {0}: {1}'.format(n, ticks_log_format(v, 0)), 'tick')
    ctx.trace()
    ctx.cls('tick')


FAMILIES = [
    Family('lengths', length_cases, run_length, '9 mantissas around the changes of prefix and digits in 32 (54) decades, both signs, 3 types, 7 precisions, with and without centimeters; integers up to 130', chunk=1),
    Family('beams', beam_cases, run_beam, '13 distances x 8 Rayleigh ranges x 3 wavelengths', chunk=1),
    Family('optics', optic_cases, run_optic, '6 optics x 7 curvatures (pairs) x 3 places', chunk=2),
    Family('ticks', tick_cases, run_tick, 'all digits in 38 (120) decades, in 8 roundings; integers below 100', chunk=2),
]
