# -*- coding: utf-8 -*-
"""
Ill-formed models are refused, well-formed ones are not.
"""
import inspect
import itertools
import numpy as np
from mc.core import Family

ASSUMPTIONS = [
    "a refusal is any exception raised before a readout has answered",
    "bonding the same pair of ports again and bonds between ports of different domains are not judged",
]


def refused(f):
    import contextlib, io
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            f()
    except Exception as e:
        return type(e).__name__ + ': ' + str(e)[:80]
    return None


# ------------------------------------------------------------------ bonds of light
PORTS = ['L.po_Fr', 'm.po_Fr', 'm.po_Bk', 's.po_Fr', 's.po_Bk', 'P.po_Fr', 'P.po_Bk']
WAYS = ['system', 'port', 'sequence']


def optical(nested=False):
    import phasor.system as system
    from phasor import optics, base
    import phasor.readouts as ro
    sys = system.BGSystem()
    sys.own.L = optics.Laser(F=sys.F_carrier_1064, power_W=2.)
    sys.own.m = optics.Mirror(T_hr=.2)
    sys.own.s = optics.Space(L_m=1.)
    sys.own.P = optics.MagicPD()
    sys.own.R = ro.DCReadout(port=sys.P.Wpd.o)
    return sys


def port(sys, name):
    e, p = name.split('.')
    return getattr(getattr(sys, e), p)


def bond(sys, a, b, way):
    if way == 'system':
        sys.bond(port(sys, a), port(sys, b))
    elif way == 'port':
        port(sys, a).bond(port(sys, b))
    else:
        sys.bond_sequence(port(sys, a), port(sys, b))


def bond_cases(tier):
    for i, a in enumerate(PORTS):
        for b in PORTS[i:]:
            yield dict(first=[a, b])


def run_bonds(case, ctx):
    a, b = case['first']
    for w1 in WAYS:
        if a == b:
            def f():
                sys = optical()
                bond(sys, a, b, w1)
                sys.R.DC_readout
            ctx.require(refused(f) is not None, lambda: '{0} bonded to itself answers'.format(a))
            ctx.step()
            continue
        for c, d in itertools.permutations(PORTS, 2):
            for w2 in WAYS:
                if set((c, d)) == set((a, b)):
                    continue
                if w1 == 'sequence' and w2 != 'port':
                    continue
                clash = bool(set((c, d)) & set((a, b)))

                def f(last=True):
                    sys = optical()
                    bond(sys, a, b, w1)
                    bond(sys, c, d, w2)
                    if last:
                        x = sys.R.DC_readout
                        assert np.all(np.isfinite(x))
                if clash:
                    r = refused(f)
                    ctx.require(r is not None, lambda: '{0}-{1} and {2}-{3} ({4}, {5}) answers'.format(a, b, c, d, w1, w2))
                elif w1 == 'system' and w2 != 'system':
                    # a sequence enters an element at one port and leaves it at another: plain pairs only
                    r = refused(f)
                    ctx.require(r is None, lambda: '{0}-{1} and {2}-{3} ({4}, {5}) is refused: {6}'.format(a, b, c, d, w1, w2, r))
                ctx.step()
    ctx.state(case)
    ctx.trace()
    ctx.cls('self' if a == b else 'bonds')


# ------------------------------------------------------------------ bonds across systems, to oneself
def pairs():
    import phasor.system as system
    from phasor import optics, electronics as e, mechanical as m, signals as g
    sys = system.BGSystem()
    out = {}
    sys.own.a = optics.Mirror(T_hr=.2)
    sys.own.b = e.SeriesResistor(resistance_Ohms=2.)
    sys.own.c = m.SeriesSpring(elasticity_N_m=2.)
    sys.own.d = g.Gain(gain=2.)
    sys.own.v = e.VoltageSource(V_DC=1.)
    import phasor.readouts as ro
    sys.own.R = e.VoltageReadout(terminal=sys.v.pe_A)
    return sys


CROSS = ['a.po_Fr', 'a.po_Bk', 'b.pe_A', 'b.pe_B', 'c.pm_A', 'c.pm_B', 'd.ps_In', 'd.ps_Out']


def cross_cases(tier):
    for a in CROSS:
        for b in CROSS:
            if a[0] == b[0]:
                yield dict(a=a, b=b)


def run_cross(case, ctx):
    a, b = case['a'], case['b']
    for way in ('system', 'port', 'sequence'):
        for other in (0, 1):
            def f():
                s, t = pairs(), pairs()
                if way == 'system':
                    (s, t)[other].bond(port(s, a), port(t, b))
                elif way == 'port':
                    port(s, a).bond(port(t, b))
                else:
                    (s, t)[other].bond_sequence(port(s, a), port(t, b))
                # both are asked: at least one is ill-formed
                s.R.DC_readout
                t.R.DC_readout
            ctx.require(refused(f) is not None, lambda: 'a bond between two systems answers: {0} to {1} by {2}'.format(a, b, way))
            ctx.step()
        if a == b and not a.startswith('a'):
            def f():
                s = pairs()
                bond(s, a, b, way)
                s.R.DC_readout
            ctx.require(refused(f) is not None, lambda: '{0} bonded to itself answers'.format(a))
            ctx.step()
    ctx.require(refused(lambda: pairs().R.DC_readout) is None, 'the model without the bond')
    ctx.state(case)
    ctx.trace()
    ctx.cls(a[0])


# ------------------------------------------------------------------ parameters
REQUIRED = dict(
    optics=['HarmonicMirror', 'Laser', 'NonlinearCrystal', 'OpticalFrequency', 'PolarizingMirror', 'WavePlateMount'],
    electronics=['CurrentReadout', 'SeriesCapacitor', 'SeriesInductor', 'SeriesResistor', 'TerminatorCapacitor', 'TerminatorInductor', 'TerminatorResistor', 'Transformer',
                 'VoltageFluctuation', 'VoltageFluctuation2', 'VoltageReadout', 'CurrentFluctuation'],
    mechanical=['DisplacementFluctuation', 'DisplacementReadout', 'ForceReadout', 'Mass', 'SeriesDamper', 'SeriesMass', 'SeriesSpring', 'String', 'TerminatorDamper', 'TerminatorSpring',
                'XYZMass', 'XYZMoment', 'XYZTerminatorDamper', 'XYZTerminatorSpring'],
    signals=['DistributionAmplifier', 'MatrixAmplifier', 'PSDFunctionNoise', 'StateSpaceModel', 'SummingAmplifier', 'TFACArray', 'TransferFunctionMIMO', 'TransferFunctionSISO',
             'TransferFunctionSISOMechSingleResonance', 'WhiteNoise'],
    readouts=['ACReadout', 'ACReadoutCLG', 'DCReadout', 'HomodyneACReadout', 'Testpoint'],
    alm=['BeamTarget', 'ThinLens', 'PLCX', 'CXCX'],
)
# parameters of elements that can be built from these alone
GOOD = dict(
    optics=dict(Mirror=dict(T_hr=.1), Space=dict(L_m=1.), PD={}, MagicPD={}, AM={}, PM={}, AMPM={}, OpticalCirculator={}, HalfWavePlate={}, QuarterWavePlate={}, FaradayRotator={}, PolarizationRotator={}),
    electronics=dict(SeriesResistor=dict(resistance_Ohms=2.), SeriesCapacitor=dict(capacitance_Farads=1e-6), SeriesInductor=dict(inductance_Henries=1e-3), VoltageSource={}, CurrentSource={}, OpAmp={}, VAmp={},
                     TerminatorMatched={}, TerminatorOpen={}, TerminatorShorted={}, Cable={}, Connection={}),
    mechanical=dict(Mass=dict(mass_kg=1.), SeriesSpring=dict(elasticity_N_m=1.), ForceSource={}, DisplacementSource={}, TerminatorOpen={}, TerminatorShorted={}, Connection={}),
    signals=dict(Gain=dict(gain=2.), Mixer={}, SignalGenerator={}, SRationalFilter={}, SummingAmplifier=dict(port_gains=dict(a=1.)), DistributionAmplifier=dict(port_gains=dict(a=1.)),
                 MatrixAmplifier=dict(port_pair_gains={('a', 'b'): 1.}), TransferFunctionSISO=dict(filter_func=lambda F: 1.), TransferFunctionMIMO=dict(port_pair_xfers={('a', 'b'): lambda F: 1.})),
    base=dict(Frequency=dict(F_Hz=1e3)),
)
NAMES = ['no_such_parameter', 'Tr', 'resistance_Ohm', 'L_metre', 'gain_', 'F_hertz', 'x']


def parameter_cases(tier):
    for m in sorted(REQUIRED):
        for c in REQUIRED[m]:
            yield dict(kind='missing', mod=m, cls=c)
    for m in sorted(GOOD):
        for c in sorted(GOOD[m]):
            if GOOD[m][c] is not None:
                yield dict(kind='unknown', mod=m, cls=c)
    for s in ('loop', 'Loop_LUQ', 'loop_LUQ ', '', 'dense', None):
        yield dict(kind='solver', value=s)
    for s in ('In', 'inward', '', 'both', 1):
        yield dict(kind='direction', value=s)


def run_parameters(case, ctx):
    import importlib
    import phasor.system as system
    k = case['kind']
    if k in ('missing', 'unknown'):
        C = getattr(importlib.import_module('phasor.' + case['mod']), case['cls'])
        build = lambda **kw: setattr(system.BGSystem().own, 'x', C(**kw))
        if k == 'missing':
            r = refused(build)
            ctx.require(r is not None, lambda: '{mod}.{cls} is built without its parameters'.format(**case))
            ctx.step()
        else:
            kw = GOOD[case['mod']][case['cls']]
            r = refused(lambda: build(**kw))
            ctx.require(r is None, lambda: '{0} is refused: {1}'.format(case, r))
            for n in NAMES:
                ctx.require(refused(lambda: build(**dict(kw, **{n: 1.}))) is not None, lambda: '{0} accepts a parameter {1} it does not have'.format(case, n))
                ctx.step()
    else:
        from phasor import electronics as e

        def f(**kw):
            d = kw.pop('direction', 'in')
            sys = system.BGSystem(F_AC=10., **kw)
            sys.own.V = e.VoltageSource(V_DC=2.)
            sys.own.Z = e.TerminatorResistor(resistance_Ohms=4.)
            sys.bond(sys.V.pe_A, sys.Z.pe_A)
            sys.own.R = e.CurrentReadout(terminal=sys.Z.pe_A, direction=d)
            x = abs(sys.R.DC_readout)
            assert abs(x - .5) < 1e-9
        ctx.require(refused(f) is None, lambda: 'the well-formed model is refused: {0}'.format(refused(f)))
        v = case['value']
        if k == 'solver' and v is None:
            ctx.require(refused(lambda: f(solver_name=None)) is None, 'no solver given')
        else:
            key = dict(solver='solver_name', direction='direction')[k]
            ctx.require(refused(lambda: f(**{key: v})) is not None, lambda: '{0}={1!r} is accepted'.format(key, v))
        ctx.step(2)
    ctx.state(case)
    ctx.trace()
    ctx.cls(k)


FAMILIES = [
    Family('bonds', bond_cases, run_bonds, 'all pairs of bonds among 7 ports of 4 optical elements (also of a port to itself), written in 3 ways in both directions', chunk=1),
    Family('cross', cross_cases, run_cross, 'bonds between two systems and of ports to themselves for 8 ports of 4 domains, written in 3 ways', chunk=1),
    Family('parameters', parameter_cases, run_parameters, '51 elements without required parameters, 43 elements with each of 7 unknown parameters, settings out of range', chunk=4),
]
