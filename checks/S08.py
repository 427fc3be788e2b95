# -*- coding: utf-8 -*-
"""
The AC response at vanishing frequency is the slope of the DC operating point.
"""
import itertools
import numpy as np
from mc.core import Family, Violation
from mc import zoo
from mc.zoo import Zoo, optics

ASSUMPTIONS = [
    "the slope is taken by a central difference of two separately solved systems with a relative step of 1e-3, and the AC response at 1e-5 Hz",
]
H = 1e-3
F0 = 1e-5


def sig():
    import phasor.signals as S
    return S


def eln():
    import phasor.electronics as E
    return E


def shg():
    z = zoo.shg()
    z.ac('am_R', 'am.Drv.i', 'pdR.Wpd.o')
    return z


def opa():
    """green pump and a seed; the seed's amplitude is modulated"""
    z = Zoo()
    z.params = dict(Pg=1., Ps=.1, nlg=.08, ph=35.)
    z.el('lg', lambda s, P: optics().Laser(F=s.F_carrier_1064, multiple=2, power_W=P['Pg']))
    z.el('lr', lambda s, P: optics().Laser(F=s.F_carrier_1064, power_W=P['Ps'], phase_deg=P['ph']))
    z.el('amR', lambda s, P: optics().AM())
    z.el('amG', lambda s, P: optics().AM())
    z.el('dc', lambda s, P: optics().HarmonicMirror(mirror_H1=optics().Mirror(T_hr=1), mirror_H2=optics().Mirror(T_hr=0), AOI_deg=45))
    z.el('dc2', lambda s, P: optics().HarmonicMirror(mirror_H1=optics().Mirror(T_hr=1), mirror_H2=optics().Mirror(T_hr=0), AOI_deg=45))
    z.el('k', lambda s, P: optics().NonlinearCrystal(nlg=P['nlg'], length_mm=10, N_ode=10))
    z.el('pdR', lambda s, P: optics().PD())
    z.el('pdG', lambda s, P: optics().PD())
    z.bond('lr.po_Fr', 'amR.po_Fr')
    z.bond('amR.po_Bk', 'dc.po_FrA')
    z.bond('lg.po_Fr', 'amG.po_Fr')
    z.bond('amG.po_Bk', 'dc.po_BkB')
    z.bond('dc.po_BkA', 'k.po_Fr')
    z.bond('k.po_Bk', 'dc2.po_FrA')
    z.bond('dc2.po_BkA', 'pdR.po_Fr')
    z.bond('dc2.po_FrB', 'pdG.po_Fr')
    z.dc('R', 'pdR.Wpd.o').dc('G', 'pdG.Wpd.o')
    z.ac('R_R', 'amR.Drv.i', 'pdR.Wpd.o').ac('R_G', 'amR.Drv.i', 'pdG.Wpd.o')
    z.ac('G_R', 'amG.Drv.i', 'pdR.Wpd.o').ac('G_G', 'amG.Drv.i', 'pdG.Wpd.o')
    z.slow = True
    return z


def aom():
    z = Zoo()
    z.params = dict(A=.4, P=1.)

    def f(s, P):
        import phasor.base as base
        return base.Frequency(F_Hz=200e6, order=1)
    z.el('F1', f)
    z.el('gen', lambda s, P: sig().SignalGenerator(F=s.F1, amplitude=P['A']))
    z.el('mod', lambda s, P: sig().Modulator())
    z.el('laser', lambda s, P: optics().Laser(F=s.F_carrier_1064, power_W=P['P']))
    z.el('am', lambda s, P: optics().AM())
    z.el('aom', lambda s, P: optics().AOM(N_ode=10))
    z.el('pd0', lambda s, P: optics().PD())
    z.el('pd1', lambda s, P: optics().PD())
    z.bond('gen.ps_Out', 'mod.ps_In')
    z.bond('mod.ps_Out', 'aom.Drv')
    z.bond('laser.po_Fr', 'am.po_Fr')
    z.bond('am.po_Bk', 'aom.po_FrA')
    z.bond('aom.po_BkA', 'pd0.po_Fr')
    z.bond('aom.po_BkB', 'pd1.po_Fr')
    z.dc('d0', 'pd0.Wpd.o').dc('d1', 'pd1.Wpd.o')
    z.ac('P0', 'am.Drv.i', 'pd0.Wpd.o').ac('P1', 'am.Drv.i', 'pd1.Wpd.o')
    z.ac('A0', 'mod.Mod_amp.i', 'pd0.Wpd.o').ac('A1', 'mod.Mod_amp.i', 'pd1.Wpd.o')
    z.fixed_order = True
    z.slow = True
    return z


def vco():
    """one generator for the signal and another of the same frequency as local oscillator"""
    z = Zoo()
    z.params = dict(A=1.5, B=.7, ph=20., F=2e8)

    def f(s, P):
        import phasor.base as base
        return base.Frequency(F_Hz=P['F'], order=1)
    z.el('F1', f)
    z.el('gen', lambda s, P: sig().SignalGenerator(F=s.F1, amplitude=P['A'], phase_deg=P['ph']))
    z.el('lo', lambda s, P: sig().SignalGenerator(F=s.F1, amplitude=P['B']))
    z.el('mod', lambda s, P: sig().Modulator())
    z.el('mlo', lambda s, P: sig().Modulator())
    z.el('mix', lambda s, P: sig().Mixer())
    z.el('ms', lambda s, P: sig().MeanSquareMixer())
    z.bond('gen.ps_Out', 'mod.ps_In')
    z.bond('lo.ps_Out', 'mlo.ps_In')
    z.bond('mlo.ps_Out', 'mix.LO')
    z.bond('mod.ps_Out', 'mix.ps_In')
    z.bond('mod.ps_Out', 'ms.ps_In')
    z.dc('I', 'mix.ps_R_I.o').dc('Q', 'mix.ps_R_Q.o')
    for n, p in (('I', 'mix.ps_R_I.o'), ('Q', 'mix.ps_R_Q.o')):
        z.ac('A' + n, 'mod.Mod_amp.i', p)
        z.ac('ph' + n, 'mod.Mod_phase.i', p)
        z.ac('B' + n, 'mlo.Mod_amp.i', p)
        z.ac('pl' + n, 'mlo.Mod_phase.i', p)
    z.fixed_order = True
    return z


def pdh():
    z = zoo.pdh()
    z.ac('Q_etm', 'etm.Z.d.o', 'mix.ps_R_Q.o').ac('DC_etm', 'etm.Z.d.o', 'refl.Wpd.o')
    return z


def fp():
    z = zoo.fp()
    z.ac('etm_trans', 'etm.Z.d.o', 'trans.Wpd.o').ac('itm_trans', 'itm.Z.d.o', 'trans.Wpd.o').ac('itm_refl', 'itm.Z.d.o', 'refl.Wpd.o').ac('am_refl', 'am.Drv.i', 'refl.Wpd.o').ac('am_F', 'am.Drv.i', 'etm.Z.F.i')
    return z


def mich():
    z = zoo.mich()
    z.ac('sym_X', 'mX.Z.d.o', 'sym.Wpd.o')
    return z


def pol():
    """phase of one polarization against the other: waveplates around a displaced mirror seen by one polarization only"""
    z = Zoo()
    z.params = dict(P=1., d=8e-8, deg=22.)
    z.el('laser', lambda s, P: optics().Laser(F=s.F_carrier_1064, power_W=P['P'], polarization='S'))
    z.el('am', lambda s, P: optics().AM())
    z.el('rot', lambda s, P: optics().PolarizationRotator(rotate_deg=P['deg']))
    z.el('circ', lambda s, P: optics().OpticalCirculator(N_ports=3))
    z.el('pbs', lambda s, P: optics().PolarizingSelector())
    z.el('sS', lambda s, P: optics().Space(L_m=10., L_detune_m=P['d']))
    z.el('sP', lambda s, P: optics().Space(L_m=20.))
    z.el('mS', lambda s, P: optics().Mirror(T_hr=.1))
    z.el('mP', lambda s, P: optics().Mirror(T_hr=.05))
    z.el('rot2', lambda s, P: optics().PolarizationRotator(rotate_deg=45.))
    z.el('sel', lambda s, P: optics().PolarizingSelector())
    z.el('pdS', lambda s, P: optics().PD())
    z.el('pdP', lambda s, P: optics().PD())
    z.bond('laser.po_Fr', 'am.po_Fr')
    z.bond('am.po_Bk', 'rot.po_Fr')
    z.bond('rot.po_Bk', 'circ.P0')
    z.bond('circ.P1', 'pbs.po_Fr')
    z.bond('pbs.Bk_S', 'sS.po_Fr')
    z.bond('sS.po_Bk', 'mS.po_Fr')
    z.bond('pbs.Bk_P', 'sP.po_Fr')
    z.bond('sP.po_Bk', 'mP.po_Fr')
    z.bond('circ.P2', 'rot2.po_Fr')
    z.bond('rot2.po_Bk', 'sel.po_Fr')
    z.bond('sel.Bk_S', 'pdS.po_Fr')
    z.bond('sel.Bk_P', 'pdP.po_Fr')
    z.dc('S', 'pdS.Wpd.o').dc('P', 'pdP.Wpd.o')
    for n, p in (('S', 'pdS.Wpd.o'), ('P', 'pdP.Wpd.o')):
        z.ac('am' + n, 'am.Drv.i', p).ac('mS' + n, 'mS.Z.d.o', p)
    return z


RAD = np.pi / 180
# (system, AC reading, DC reading, parameter, factor: AC = factor(P) * d(DC)/d(parameter))
ONE = lambda P, p: 1.
REL = lambda P, p: P[p]
# drives of signals are amplitudes while photodiodes give the coefficient of exp(i w t)
HALF = lambda P, p: P[p] / 2
DEG = lambda P, p: 1 / RAD
SYS = dict(fp=fp, mich=mich, pdh=pdh, vir=zoo.vir, mech=zoo.mech, shg=shg, opa=opa, aom=aom, vco=vco, pol=pol)
REL_ = [
    ('fp', 'etm_refl', 'refl_DC', 'd', ONE), ('fp', 'etm_trans', 'trans_DC', 'd', ONE),
    ('fp', 'am_trans', 'trans_DC', 'P', REL), ('fp', 'am_refl', 'refl_DC', 'P', REL), ('fp', 'am_F', 'F_DC', 'P', REL),
    ('mich', 'asym_X', 'asym_DC', 'd', ONE), ('mich', 'sym_X', 'sym_DC', 'd', ONE),
    ('pdh', 'I_etm', 'I', 'd', ONE), ('pdh', 'Q_etm', 'Q', 'd', ONE), ('pdh', 'DC_etm', 'refl_DC', 'd', ONE),
    ('vir', 'ac', 'rV', 'V', ONE), ('vir', 'acI', 'rI', 'V', ONE),
    ('mech', 'acd', 'rd', 'F', ONE), ('mech', 'acf', 'rf', 'F', ONE),
    ('shg', 'am_G', 'G', 'P', REL), ('shg', 'am_R', 'R', 'P', REL),
    ('opa', 'R_R', 'R', 'Ps', REL), ('opa', 'R_G', 'G', 'Ps', REL), ('opa', 'G_R', 'R', 'Pg', REL), ('opa', 'G_G', 'G', 'Pg', REL),
    ('aom', 'P0', 'd0', 'P', REL), ('aom', 'P1', 'd1', 'P', REL), ('aom', 'A0', 'd0', 'A', HALF), ('aom', 'A1', 'd1', 'A', HALF),
    ('vco', 'AI', 'I', 'A', REL), ('vco', 'AQ', 'Q', 'A', REL),
    ('vco', 'BI', 'I', 'B', REL), ('vco', 'BQ', 'Q', 'B', REL),
    ('vco', 'phI', 'I', 'ph', DEG), ('vco', 'phQ', 'Q', 'ph', DEG),
    ('pol', 'amS', 'S', 'P', REL), ('pol', 'amP', 'P', 'P', REL), ('pol', 'mSS', 'S', 'd', ONE), ('pol', 'mSP', 'P', 'd', ONE),
]


def run(case, ctx):
    zn, base = case['sys'], case['params']
    z = SYS[zn]()
    P = dict(z.params)
    P.update(base)
    b = zoo.Built(z, F_AC=F0, params=P)
    rels = [r for r in REL_ if r[0] == zn]
    step = {}
    for s, a, d, p, f in rels:
        if p not in step:
            hi, lo = dict(P), dict(P)
            hi[p] = P[p] * (1 + H)
            lo[p] = P[p] * (1 - H)
            step[p] = (zoo.Built(z, F_AC=F0, params=hi), zoo.Built(z, F_AC=F0, params=lo))
            ctx.step(2)
        hi, lo = step[p]
        dc = b.get(d + '.DC')
        u, l = hi.get(d + '.DC'), lo.get(d + '.DC')
        slope = (u - l) / (2 * H * P[p]) * f(P, p)
        got = b.get(a + '.AC')
        if zn in ('opa', 'shg'):
            # the integration of the crystal treats a field and its conjugate in turn, which leaves an imaginary part of first order in the step
            got = np.real(got)
        # what the operating point changes with the parameter sets the scale of the error of the difference
        scale = max(abs(dc), abs(u - l) / (2 * H)) / abs(P[p]) * abs(f(P, p))
        ctx.close(got, slope, lambda: "system {0} with {1}: AC response {2} against the slope of {3} with {4}".format(zn, P, a, d, p),
                  rtol=2e-4, atol=2e-5 * scale)
    ctx.state(case)
    ctx.trace()
    ctx.cls(zn)


def cases(tier):
    mult = [.5, 1., 1.5] if tier == 'quick' else [.3, .5, 1., 1.5, 2.5]
    skip = dict(pdh=['Fm'], vco=['F'])
    for zn in sorted(SYS):
        z = SYS[zn]()
        ps = [p for p in sorted(z.params) if p not in skip.get(zn, [])]
        yield dict(sys=zn, params={})
        seen = set()
        k = 1 if (z.slow and tier == 'quick') else 2
        for n in range(1, min(k, len(ps)) + 1):
            for sub in itertools.combinations(ps, n):
                for m in itertools.product([x for x in mult if x != 1.], repeat=n):
                    pr = dict((p, z.params[p] * x) for p, x in zip(sub, m))
                    if pr.get('T', 0) > 1 - z.params.get('loss', 0) or pr.get('T', 0) + pr.get('loss', z.params.get('loss', 0)) > 1:
                        continue
                    yield dict(sys=zn, params=pr)


FAMILIES = [
    Family('slope', cases, run, "10 systems (cavity, Michelson, PDH, circuit, mechanics, frequency doubling, parametric amplifier, AOM, mixers, polarization interferometer), 34 pairs of response and operating point, over all parameter multipliers of every parameter and pair of parameters", chunk=2),
]
