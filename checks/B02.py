# -*- coding: utf-8 -*-
"""
A parameter is the same whatever the unit and whatever the way it is given.
"""
import itertools
import numpy as np
from mc.core import Family, Violation

ASSUMPTIONS = [
    "oracle: a table of the units written down here; tolerance 1e-12 relative",
    "units are those of the parameter; parameters are given one at a time, for elements built alone in a system",
]

PI = np.pi
LENGTH = dict(m=1., fm=1e-15, pm=1e-12, nm=1e-9, um=1e-6, mm=1e-3, cm=1e-2, km=1e3, ft=.3048, **{'in': .0254})
TIME = dict(s=1., fs=1e-15, ps=1e-12, ns=1e-9, us=1e-6, ms=1e-3)
ANGLE = dict(deg=1., rad=180 / PI, mrad=.18 / PI, urad=.18e-3 / PI)
FREQ = dict(Hz=1., GHz=1e9, MHz=1e6, kHz=1e3, mHz=1e-3, uHz=1e-6)
POWER = dict(W=1., fW=1e-15, pW=1e-12, nW=1e-9, uW=1e-6, mW=1e-3, kW=1e3, MW=1e6, GW=1e9)
PINT = dict()


def optical(cls, **fixed):
    def make(kw, tree=None, full=False):
        from phasor import optics, system
        s = system.BGSystem(**({'ctree': tree} if tree is not None else {}))
        k = dict(fixed)
        if cls == 'Laser':
            k['F'] = s.F_carrier_1064
        k.update(kw)
        s.own.e = getattr(optics, cls)(**k)
        return s, s.e
    return make


def nlcrystal(kw, tree=None):
    from phasor import system
    from phasor.optics import nonlinear_crystal
    s = system.BGSystem(**({'ctree': tree} if tree is not None else {}))
    s.own.e = nonlinear_crystal.NonlinearCrystal(nlg=.1, **kw)
    return s, s.e


def frequency(kw, tree=None):
    from phasor import base, system
    s = system.BGSystem(**({'ctree': tree} if tree is not None else {}))
    s.own.e = base.Frequency(**kw)
    return s, s.e


def signal(mod, cls, **fixed):
    def make(kw, tree=None):
        import importlib
        from phasor import system
        s = system.BGSystem(**({'ctree': tree} if tree is not None else {}))
        k = dict(fixed)
        if cls == 'SignalGenerator':
            k['F'] = s.F_AC
        k.update(kw)
        s.own.e = getattr(importlib.import_module('phasor.signals.' + mod), cls)(**k)
        return s, s.e
    return make


def beam(cls, **fixed):
    def make(kw, tree=None):
        from phasor import alm
        from phasor.alm import substrates
        r = alm.RootSystem(env_substrate=substrates.substrate_environment if hasattr(substrates, 'substrate_environment') else substrates.substrate_vacuum,
                           **({'ctree': tree} if tree is not None else {}))
        k = dict(fixed)
        k.update(kw)
        r.own.e = getattr(alm, cls)(**k)
        return r, r.e
    return make


# name: (builder, stems, preferred attribute, units)
PARAMS = {
    'Space.length': (optical('Space'), ['length', 'L'], 'length', LENGTH),
    'Space.L_detune': (optical('Space', L_m=1.), ['L_detune'], 'L_detune', LENGTH),
    'Laser.power': (optical('Laser'), ['power'], 'power', POWER),
    'Laser.phase': (optical('Laser', power_W=1.), ['phase'], 'phase', ANGLE),
    'Mirror.phase': (optical('Mirror', T_hr=.1), ['phase'], 'phase', ANGLE),
    'Mirror.backscatter_phase': (optical('Mirror', T_hr=.1), ['backscatter_phase'], 'backscatter_phase', ANGLE),
    'PolarizationRotator.rotate': (optical('PolarizationRotator'), ['rotate'], 'rotate', ANGLE),
    'HalfWavePlate.rotate': (optical('HalfWavePlate'), ['rotate'], 'rotate', ANGLE),
    'NonlinearCrystal.length': (nlcrystal, ['length', 'L'], 'length', LENGTH),
    'Frequency.F': (frequency, ['F'], 'frequency', FREQ),
    'Mixer.phase': (signal('mixer', 'Modulator'), ['phase'], 'phase', ANGLE),
    'SignalGenerator.phase': (signal('signal_generator', 'SignalGenerator', amplitude=1.), ['phase'], 'phase', ANGLE),
    'SRationalFilter.delay': (signal('ZPSOS', 'SRationalFilter', gain=1.), ['delay'], 'delay', TIME),
    'alm.Space.L': (beam('Space', loc_m=0.), ['L', 'length'], 'L_preferred', LENGTH),
    'alm.Space.loc': (beam('Space', L_m=.5), ['loc'], 'loc_preferred', LENGTH),
    'alm.ThinLens.f': (beam('ThinLens', loc_m=0.), ['f'], 'f_preferred', LENGTH),
    'alm.ThinLens.loc': (beam('ThinLens', f_m=.5), ['loc'], 'loc_preferred', LENGTH),
    'alm.Mirror.R': (beam('Mirror', loc_m=0.), ['R', 'ROC'], 'ROC_preferred', LENGTH),
    'alm.PLCX.R': (beam('PLCX', loc_m=0., L_m=.01), ['R', 'ROC'], 'ROC_preferred', LENGTH),
    'alm.PLCX.L': (beam('PLCX', loc_m=0., R_m=1.), ['L', 'length'], 'L_preferred', LENGTH),
    'alm.CXCX.R1': (beam('CXCX', loc_m=0., R2_m=1., L_m=.01), ['R1', 'ROC1'], 'ROC1_preferred', LENGTH),
    'alm.CXCX.R2': (beam('CXCX', loc_m=0., R1_m=1., L_m=.01), ['R2', 'ROC2'], 'ROC2_preferred', LENGTH),
}


def value(code):
    return {'a': 3.5, 'b': .125, 'z': 0., 'n': -2.25, 'v': np.array([1., 2.5, -4.])}[code]


def judge(ctx, name, e, unit, val, ref=None, msg=''):
    """every view of the parameter of e is val in `unit`"""
    make, stems, pref, U = PARAMS[name]
    ref = val if ref is None else ref
    for stem in stems:
        for u in U:
            o = getattr(e, '{0}_{1}'.format(stem, u))
            k = U[unit] / U[u]
            ctx.step()
            ctx.close(o.val, val * k, lambda: '{0} {1}: {2}_{3}.val'.format(name, msg, stem, u), rtol=1e-11, atol=0)
            ctx.close(o.ref, ref * k, lambda: '{0} {1}: {2}_{3}.ref'.format(name, msg, stem, u), rtol=1e-11, atol=0)
    o = getattr(e, pref)
    first = getattr(e, '{0}_{1}'.format(stems[0], unit))
    ctx.close((o - first).val, 0 * val, '{0} {1}: the preferred form differs'.format(name, msg), rtol=0, atol=1e-9 * max(1e-30, np.abs(np.asarray(o.val)).max()))


def direct(tier):
    for name in sorted(PARAMS):
        make, stems, pref, U = PARAMS[name]
        for u in sorted(U):
            for stem in stems:
                for v in (['a', 'n', 'v'] if tier == 'quick' else ['a', 'b', 'n', 'v', 'z']):
                    yield dict(name=name, u=u, stem=stem, v=v)


def run_direct(case, ctx):
    make, stems, pref, U = PARAMS[case['name']]
    val = value(case['v'])
    s, e = make({'{0}_{1}'.format(case['stem'], case['u']): val})
    judge(ctx, case['name'], e, case['u'], val, msg='given as {0}_{1}'.format(case['stem'], case['u']))
    ctx.state(case)
    ctx.trace()
    ctx.cls(case['name'])


FORMS = ['copy', 'sum', 'difference', 'scaled', 'rscaled', 'divided', 'negative', 'quantity', 'unit', 'mixed']


def objects(tier):
    for name in sorted(PARAMS):
        make, stems, pref, U = PARAMS[name]
        for u in sorted(U):
            for form in FORMS:
                for u2 in sorted(U):
                    if form in ('quantity', 'unit') and u2 != u:
                        continue
                    yield dict(name=name, u=u, u2=u2, form=form)


def pint_unit(u):
    from phasor.base import pint
    return pint.ureg.parse_units({'in': 'inch'}.get(u, u))


def run_objects(case, ctx):
    """parameters given as objects computed from the parameters of other elements"""
    from phasor.base import pint
    name, u, u2 = case['name'], case['u'], case['u2']
    make, stems, pref, U = PARAMS[name]
    stem = stems[-1]
    s1, e1 = make({'{0}_{1}'.format(stem, u): 3.5})
    s2, e2 = make({'{0}_{1}'.format(stem, u): -1.25})
    a = getattr(e1, '{0}_{1}'.format(stem, u2))
    b = getattr(e2, '{0}_{1}'.format(stem, sorted(U)[0]))
    f = case['form']
    if f == 'copy':
        arg, want = a, 3.5
    elif f == 'sum':
        arg, want = a + b, 2.25
    elif f == 'difference':
        arg, want = a - b, 4.75
    elif f == 'scaled':
        arg, want = a * 3, 10.5
    elif f == 'rscaled':
        arg, want = 2. * a, 7.
    elif f == 'divided':
        arg, want = a / 4, .875
    elif f == 'negative':
        arg, want = -a, -3.5
    elif f == 'quantity':
        arg, want = 3.5 * pint_unit(u), 3.5
    elif f == 'unit':
        arg, want = pint_unit(u), 1.
    elif f == 'mixed':
        arg, want = (a + b * 2) / 2 - (-b), -.75
    s3, e3 = make({pref: arg})
    judge(ctx, name, e3, u, want, msg='given as a {0} of {1} and {2}'.format(f, u, u2))
    # the sources are as they were
    judge(ctx, name, e1, u, 3.5, msg='after it was used')
    ctx.state(case)
    ctx.trace()
    ctx.cls(f)


def refused(tier):
    for name in sorted(PARAMS):
        make, stems, pref, U = PARAMS[name]
        for stem in stems:
            for u, u2 in itertools.combinations(sorted(U), 2):
                yield dict(name=name, a='{0}_{1}'.format(stem, u), b='{0}_{1}'.format(stems[0], u2))


def run_refused(case, ctx):
    """two units at once, and parameters of another dimension"""
    from phasor.base import pint
    make, stems, pref, U = PARAMS[case['name']]
    for kw in ({case['a']: 1., case['b']: 1.}, {case['a']: 0., case['b']: 0.}):
        try:
            s, e = make(kw)
            getattr(e, '{0}_{1}'.format(stems[0], sorted(U)[0])).val
        except RuntimeError:
            pass
        else:
            raise Violation('{0}: {1} was accepted'.format(case['name'], kw))
    wrong = pint.ureg.kg
    try:
        s, e = make({pref: 2. * wrong})
        got = getattr(e, '{0}_{1}'.format(stems[0], sorted(U)[0])).val
    except BaseException as E:
        if not isinstance(E, Exception):
            raise
    else:
        raise Violation('{0} in kilograms was accepted as {1}'.format(case['name'], got))
    ctx.step(3)
    ctx.state(case)
    ctx.trace()
    ctx.cls(case['name'])


def fitting(tier):
    for name in sorted(PARAMS):
        make, stems, pref, U = PARAMS[name]
        for u in sorted(U):
            for u2 in sorted(U):
                for mode in ('inject', 'reinject'):
                    if name.startswith('alm.') and tier == 'quick' and u2 not in ('m', 'in', u):
                        continue
                    yield dict(name=name, u=u, u2=u2, mode=mode)


def run_fitting(case, ctx):
    """the tree of parameters: reading the initial value, injecting a value, and building again from the tree"""
    import declarative
    make, stems, pref, U = PARAMS[case['name']]
    s, e = make({'{0}_{1}'.format(stems[0], case['u']): 3.5})
    o = getattr(e, '{0}_{1}'.format(stems[-1], case['u2']))
    data = o.fitter_data
    ctx.require(len(data) == 1, 'fitter data')
    d = data[0]
    k = U[case['u']] / U[case['u2']]
    ctx.close(d.initial(s.ctree), 3.5 * k, lambda: 'initial value of {0} in {1}'.format(case['name'], case['u2']), rtol=1e-11, atol=0)
    tree = declarative.DeepBunch()
    if case['mode'] == 'inject':
        d.inject(tree, 5.5, 4.5)
        ref = 4.5
    else:
        d.reinject(tree, 5.5)
        ref = 5.5
    ctx.close(d.initial(tree), ref, lambda: 'initial value of {0} after {1}'.format(case['name'], case['mode']), rtol=1e-11, atol=0)
    s2, e2 = make({'{0}_{1}'.format(stems[0], case['u']): 3.5}, tree)
    judge(ctx, case['name'], e2, case['u2'], 5.5, ref, msg='{0}ed in {1}'.format(case['mode'], case['u2']))
    judge(ctx, case['name'], e, case['u'], 3.5, msg='after the injection elsewhere')
    ctx.state(case)
    ctx.step(3)
    ctx.trace()
    ctx.cls(case['mode'])


FAMILIES = [
    Family('direct', direct, run_direct, '22 parameters x all units x all names x values, read in all units'),
    Family('objects', objects, run_objects, '22 parameters x all pairs of units x 10 ways of computing a parameter from others, read in all units'),
    Family('refused', refused, run_refused, '22 parameters x all pairs of units given at once; wrong dimensions'),
    Family('fitting', fitting, run_fitting, '22 parameters x all pairs of units: initial values, injection into the tree and building from it'),
]
