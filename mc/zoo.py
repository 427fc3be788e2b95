# -*- coding: utf-8 -*-
"""
A zoo of small systems which between them use every part of the simulator.

Each entry is a description which can be built in any order: elements, bonds and readouts, and the outputs to evaluate.
"""
import numpy as np


def sets(P, name):
    """the set of ports a readout is solved with, when it is chosen"""
    v = P.get('port_sets', {}).get(name)
    return {} if v is None else dict(port_set=v)


class Zoo(object):
    def __init__(self):
        self.els = []       # (name, constructor(sys, P))
        self.bonds = []     # ('el.port', 'el.port')
        self.reads = []     # (name, constructor(sys, P, port), [(label, getter)])
        self.params = {}    # name -> default value
        self.kw = {}
        self.slow = False
        self.late = False
        self.fixed_order = False

    def el(self, name, f):
        self.els.append((name, f))
        return self

    def bond(self, *seq):
        for a, b in zip(seq[:-1], seq[1:]):
            self.bonds.append((a, b))
        return self

    def chain(self, *names):
        """optical chain in the same sense as bond_sequence"""
        for a, b in zip(names[:-1], names[1:]):
            self.bonds.append((a, b))
        return self

    def dc(self, name, port):
        def f(sys, P, port_):
            import phasor.readouts as ro
            return ro.DCReadout(port=port_(port), **sets(P, name))
        self.reads.append((name, f, [('DC', lambda r: r.DC_readout)]))
        return self

    def ac(self, name, portD, portN, noise=False):
        def f(sys, P, port_):
            import phasor.readouts as ro
            return ro.ACReadout(portD=port_(portD), portN=port_(portN), include_noise=noise, **sets(P, name))
        outs = [('AC', lambda r: r.AC_sensitivity)]
        if noise:
            outs.append(('PSD', lambda r: r.noise.CSD['R', 'R']))
        self.reads.append((name, f, outs))
        return self

    def noise(self, name, port):
        def f(sys, P, port_):
            import phasor.readouts as ro
            return ro.NoiseReadout(portN=port_(port), **sets(P, name))
        self.reads.append((name, f, [('PSD', lambda r: r.CSD['R', 'R'])]))
        return self

    def read(self, name, f, outs):
        self.reads.append((name, f, outs))
        return self

    def outputs(self):
        return ['{0}.{1}'.format(n, lab) for n, f, outs in self.reads for lab, g in outs]


def port_get(sys, path):
    o = sys
    for p in path.split('.'):
        o = getattr(o, p)
    return o


class Built(object):
    def __init__(self, zoo, F_AC=None, params=None, el_order=None, op_order=None, flips=(), kw=None, pre=None, sys_hook=None, bond_f=None, ins=None):
        import phasor.system as system
        self.zoo = zoo
        P = dict(zoo.params)
        P.update(params or {})
        self.P = P
        k = dict(zoo.kw)
        k.update(kw or {})
        self.sys = sys = system.BGSystem(F_AC=np.array([3., 40.]) if F_AC is None else F_AC, **k)
        if ins is None:
            ins = lambda sys, name, el: sys.insert(el, name)
        if sys_hook is not None:
            sys_hook(sys)
        for i in (el_order if el_order is not None else range(len(zoo.els))):
            name, f = zoo.els[i]
            ins(sys, name, f(sys, P))
        ops = [('b', i) for i in range(len(zoo.bonds))] + [('r', i) for i in range(len(zoo.reads))]
        for j in (op_order if op_order is not None else range(len(ops))):
            kind, i = ops[j]
            if kind == 'b':
                a, b = zoo.bonds[i]
                if i in flips:
                    a, b = b, a
                if bond_f is not None:
                    bond_f(port_get(sys, a), port_get(sys, b))
                else:
                    sys.bond(port_get(sys, a), port_get(sys, b))
            else:
                name, f, outs = zoo.reads[i]
                ins(sys, name, f(sys, P, lambda path: port_get(sys, path)))

    def get(self, label):
        name, lab = label.split('.')
        for n, f, outs in self.zoo.reads:
            if n == name:
                for l, g in outs:
                    if l == lab:
                        return g(getattr(self.sys, name))
        raise KeyError(label)

    def all(self):
        return dict((k, self.get(k)) for k in self.zoo.outputs())


def n_ops(zoo):
    return len(zoo.bonds) + len(zoo.reads)


def same(ctx, got, want, msg, rtol=1e-5, sig=None, floor=1e-6):
    """all the outputs of one system agree (relative to the largest entry of each)"""
    suf = {}
    for k in want:
        w = np.asarray(want[k])
        if w.size:
            suf.setdefault(k.split('.')[1], []).append(np.max(abs(w)))
    for k in want:
        g, w = np.asarray(got[k]), np.asarray(want[k])
        sc = max(np.max(abs(w)), floor * max(suf[k.split('.')[1]])) if w.size else 0.
        try:
            e = np.max(abs(g - w))
        except ValueError:
            e = float('nan')
        if not e <= rtol * sc + 1e-300:
            from .core import Violation
            raise Violation('{0}: output {1}: got {2!r}, expected {3!r}'.format(msg() if callable(msg) else msg, k, g, w), sig=sig)


_ref = {}


def reference(name):
    """the system built in its listed order, solved once (per process)"""
    if name not in _ref:
        z = ALL[name]()
        _ref[name] = (z, Built(z).all())
    return _ref[name]


# ---------------------------------------------------------------------------------------------
def optics():
    import phasor.optics as o
    return o


def fp():
    z = Zoo()
    z.params = dict(P=2., T1=.02, T2=.01, d=3e-10, L=1e4)
    z.el('laser', lambda s, P: optics().Laser(F=s.F_carrier_1064, power_W=P['P']))
    z.el('am', lambda s, P: optics().AM())
    z.el('itm', lambda s, P: optics().Mirror(T_hr=P['T1'], L_hr=1e-3))
    z.el('etm', lambda s, P: optics().Mirror(T_hr=P['T2']))
    z.el('s1', lambda s, P: optics().Space(L_m=P['L'], L_detune_m=P['d']))
    z.el('refl', lambda s, P: optics().MagicPD())
    z.el('trans', lambda s, P: optics().PD())
    z.bond('laser.po_Fr', 'am.po_Fr')
    z.bond('am.po_Bk', 'refl.po_Bk')
    z.bond('refl.po_Fr', 'itm.po_Bk')
    z.bond('itm.po_Fr', 's1.po_Fr')
    z.bond('s1.po_Bk', 'etm.po_Fr')
    z.bond('etm.po_Bk', 'trans.po_Fr')
    z.dc('refl_DC', 'refl.Wpd.o').dc('trans_DC', 'trans.Wpd.o').dc('F_DC', 'etm.Z.F.i')
    z.ac('etm_refl', 'etm.Z.d.o', 'refl.Wpd.o').ac('am_trans', 'am.Drv.i', 'trans.Wpd.o', True)
    return z


def mich():
    z = Zoo()
    z.params = dict(P=1., T=.5, d=1064e-9 / 16, loss=.05)
    z.el('laser', lambda s, P: optics().Laser(F=s.F_carrier_1064, power_W=P['P'], polarization='S'))
    z.el('bs', lambda s, P: optics().Mirror(T_hr=P['T'], L_hr=P['loss'], AOI_deg=45))
    z.el('mX', lambda s, P: optics().Mirror(T_hr=0))
    z.el('mY', lambda s, P: optics().Mirror(T_hr=0, L_hr=P['loss']))
    z.el('sX', lambda s, P: optics().Space(L_m=1e4, L_detune_m=P['d']))
    z.el('sY', lambda s, P: optics().Space(L_m=2e4))
    z.el('sym', lambda s, P: optics().MagicPD())
    z.el('asym', lambda s, P: optics().PD())
    z.bond('laser.po_Fr', 'sym.po_Bk')
    z.bond('sym.po_Fr', 'bs.po_FrA')
    z.bond('bs.po_BkA', 'sX.po_Fr')
    z.bond('sX.po_Bk', 'mX.po_Fr')
    z.bond('bs.po_FrB', 'sY.po_Fr')
    z.bond('sY.po_Bk', 'mY.po_Fr')
    z.bond('bs.po_BkB', 'asym.po_Fr')
    z.dc('sym_DC', 'sym.Wpd.o').dc('asym_DC', 'asym.Wpd.o')
    z.ac('asym_X', 'mX.Z.d.o', 'asym.Wpd.o', True).ac('sym_BS', 'bs.Z.d.o', 'sym.Wpd.o')
    return z


def pdh():
    z = Zoo()
    z.params = dict(T1=.05, d=2e-10, mod=.1, Fm=1e4)
    z.kw = dict(freq_order_max_default=2)

    def fmod(s, P):
        import phasor.system as system
        return system.Frequency(F_Hz=P['Fm'], name='mod', order=1)
    z.el('Fmod', fmod)

    def lo(s, P):
        import phasor.signals as signals
        return signals.SignalGenerator(F=s.Fmod, amplitude=P['mod'])

    def mix(s, P):
        import phasor.signals as signals
        return signals.Mixer()
    z.el('lo', lo)
    z.el('laser', lambda s, P: optics().Laser(F=s.F_carrier_1064, power_W=1.))
    z.el('pm', lambda s, P: optics().PM())
    z.el('itm', lambda s, P: optics().Mirror(T_hr=P['T1']))
    z.el('etm', lambda s, P: optics().Mirror(T_hr=.001))
    z.el('s1', lambda s, P: optics().Space(L_m=1e3, L_detune_m=P['d']))
    z.el('refl', lambda s, P: optics().MagicPD())
    z.el('mix', mix)
    z.bond('lo.ps_Out', 'pm.Drv')
    z.bond('laser.po_Fr', 'pm.po_Fr')
    z.bond('pm.po_Bk', 'refl.po_Bk')
    z.bond('refl.po_Fr', 'itm.po_Bk')
    z.bond('itm.po_Fr', 's1.po_Fr')
    z.bond('s1.po_Bk', 'etm.po_Fr')
    z.bond('refl.Wpd', 'mix.ps_In')
    z.bond('lo.ps_Out', 'mix.LO')
    z.dc('I', 'mix.ps_R_I.o').dc('Q', 'mix.ps_R_Q.o').dc('refl_DC', 'refl.Wpd.o')
    z.ac('I_etm', 'etm.Z.d.o', 'mix.ps_R_I.o')
    z.fixed_order = True
    return z


def vir():
    z = Zoo()
    z.params = dict(V=2., R1=75., C=1e-4, L=.03, R2=20.)

    def e():
        import phasor.electronics as E
        return E
    z.el('V1', lambda s, P: e().VoltageSource(V_DC=P['V']))
    z.el('R1', lambda s, P: e().SeriesResistor(resistance_Ohms=P['R1']))
    z.el('C1', lambda s, P: e().TerminatorCapacitor(capacitance_Farads=P['C']))
    z.el('L1', lambda s, P: e().SeriesInductor(inductance_Henries=P['L']))
    z.el('R2', lambda s, P: e().TerminatorResistor(resistance_Ohms=P['R2']))
    z.el('n', lambda s, P: e().Connection(N_ports=3))
    z.bond('V1.pe_A', 'R1.pe_A')
    z.bond('R1.pe_B', 'n.pe_0')
    z.bond('C1.pe_A', 'n.pe_1')
    z.bond('n.pe_2', 'L1.pe_A')
    z.bond('L1.pe_B', 'R2.pe_A')
    z.read('rV', lambda s, P, p: e().VoltageReadout(terminal=p('R2.pe_A')), [('DC', lambda r: r.DC_readout)])
    z.read('rI', lambda s, P, p: e().CurrentReadout(terminal=p('V1.pe_A'), direction='out'), [('DC', lambda r: r.DC_readout)])
    z.read('rN', lambda s, P, p: e().VoltageReadout(terminal=p('C1.pe_A')), [])
    z.ac('ac', 'V1.V.i', 'rV.V.o').ac('acI', 'V1.V.i', 'rI.I.o').noise('nz', 'rN.V.o')
    z.late = True
    return z


def opamp():
    z = Zoo()
    z.params = dict(G=1e4, Rf=1e4, Rin=1e3)

    def e():
        import phasor.electronics as E
        return E
    z.el('V1', lambda s, P: e().VoltageSource(V_DC=.01))
    z.el('Rin', lambda s, P: e().SeriesResistor(resistance_Ohms=P['Rin']))
    z.el('Rf', lambda s, P: e().SeriesResistor(resistance_Ohms=P['Rf']))
    z.el('op', lambda s, P: e().OpAmp(gain_by_freq=lambda F: P['G'] / (1 + 1j * np.asarray(F) / 50.)))
    z.el('gnd', lambda s, P: e().TerminatorShorted())
    z.bond('V1.pe_A', 'Rin.pe_A')
    z.bond('Rin.pe_B', 'op.in_n')
    z.bond('Rf.pe_A', 'op.in_n')
    z.bond('Rf.pe_B', 'op.out')
    z.bond('gnd.pe_A', 'op.in_p')
    z.read('rV', lambda s, P, p: e().VoltageReadout(terminal=p('op.out')), [('DC', lambda r: r.DC_readout)])
    z.ac('ac', 'V1.V.i', 'rV.V.o', True)
    z.late = True
    return z


def mech():
    z = Zoo()
    z.params = dict(m=2., k=5., c=1.5, F=3.)

    def m():
        import phasor.mechanical as M
        return M
    z.el('F1', lambda s, P: m().ForceSource(F_DC=P['F']))
    z.el('mass', lambda s, P: m().Mass(mass_kg=P['m']))
    z.el('sp', lambda s, P: m().SeriesSpring(elasticity_N_m=P['k']))
    z.el('damp', lambda s, P: m().TerminatorDamper(resistance_Ns_m=P['c']))
    z.el('gnd', lambda s, P: m().TerminatorSpring(elasticity_N_m=11.))
    z.el('n', lambda s, P: m().Connection(N_ports=3))
    z.el('n2', lambda s, P: m().Connection(N_ports=3))
    z.bond('F1.pm_A', 'n.pm_0')
    z.bond('mass.pm_A', 'n.pm_1')
    z.bond('n.pm_2', 'sp.pm_A')
    z.bond('sp.pm_B', 'n2.pm_0')
    z.bond('n2.pm_1', 'damp.pm_A')
    z.bond('n2.pm_2', 'gnd.pm_A')
    z.read('rd', lambda s, P, p: m().DisplacementReadout(terminal=p('mass.pm_A')), [('DC', lambda r: r.DC_readout)])
    z.read('rf', lambda s, P, p: m().ForceReadout(terminal=p('gnd.pm_A')), [('DC', lambda r: r.DC_readout)])
    z.ac('acd', 'F1.F.i', 'rd.d.o').ac('acf', 'F1.F.i', 'rf.F.o')
    z.late = True
    return z


def optomech():
    z = Zoo()
    z.params = dict(P=1e6, m=1e-3, k=20., d=3e-9)

    def m():
        import phasor.mechanical as M
        return M
    z.el('laser', lambda s, P: optics().Laser(F=s.F_carrier_1064, power_W=P['P']))
    z.el('am', lambda s, P: optics().AM())
    z.el('itm', lambda s, P: optics().Mirror(T_hr=.05))
    z.el('etm', lambda s, P: optics().Mirror(T_hr=.01))
    z.el('s1', lambda s, P: optics().Space(L_m=1., L_detune_m=P['d']))
    z.el('mass', lambda s, P: m().SeriesMass(mass_kg=P['m']))
    z.el('spring', lambda s, P: m().TerminatorSpring(elasticity_N_m=P['k']))
    z.el('trans', lambda s, P: optics().PD())
    z.bond('laser.po_Fr', 'am.po_Fr')
    z.bond('am.po_Bk', 'itm.po_Bk')
    z.bond('itm.po_Fr', 's1.po_Fr')
    z.bond('s1.po_Bk', 'etm.po_Fr')
    z.bond('etm.po_Bk', 'trans.po_Fr')
    z.bond('etm.Z', 'mass.pm_A')
    z.bond('mass.pm_B', 'spring.pm_A')
    z.dc('t', 'trans.Wpd.o').dc('F', 'etm.Z.F.i')
    z.ac('am_t', 'am.Drv.i', 'trans.Wpd.o', True)
    z.ac('am_Z', 'am.Drv.i', 'etm.Z.d.o')
    return z


def loop():
    z = Zoo()
    z.params = dict(g=.3, a=5.)

    def sg():
        import phasor.signals as S
        return S
    z.el('sum', lambda s, P: sg().SummingAmplifier(port_gains=dict(a=1., b=-1.)))
    z.el('plant', lambda s, P: sg().SRationalFilter(poles_r=(-2.,), zeros_r=(-P['a'],), gain=P['g']))
    z.el('ctl', lambda s, P: sg().Integrator())
    z.el('dist', lambda s, P: sg().DistributionAmplifier(port_gains=dict(x=1., y=2.)))
    z.el('wn', lambda s, P: sg().WhiteNoise(magnitude_ASD=.7, sided='one', port=s.sum.a))
    z.bond('sum.ps_Out', 'plant.ps_In')
    z.bond('plant.ps_Out', 'dist.ps_In')
    z.bond('dist.x', 'ctl.ps_In')
    z.bond('ctl.ps_Out', 'sum.b')
    z.fixed_order = True
    z.ac('cl', 'sum.a.i', 'dist.y.o', True)
    z.ac('ctl_', 'sum.a.i', 'ctl.ps_Out.o', True)
    return z


def nsum():
    z = Zoo()
    z.params = dict(n1=.7, n2=.4)

    def sg():
        import phasor.signals as S
        return S
    z.el('sum', lambda s, P: sg().SummingAmplifier(port_gains=dict(a=1., b=-2.)))
    z.el('fil', lambda s, P: sg().SRationalFilter(poles_r=(-20.,), gain=3.))
    z.el('out', lambda s, P: sg().SummingAmplifier(port_gains=dict(x=1., y=.5)))
    z.el('wn1', lambda s, P: sg().WhiteNoise(magnitude_ASD=P['n1'], sided='one', port=s.sum.a))
    z.el('wn2', lambda s, P: sg().WhiteNoise(magnitude_ASD=P['n2'], sided='two', port=s.sum.b))
    z.el('wn3', lambda s, P: sg().PSDFunctionNoise(PSD_function=lambda F: 1 / (1 + abs(F)), sided='one', port=s.out.y))
    z.bond('sum.ps_Out', 'out.x')
    z.bond('fil.ps_Out', 'out.y')
    z.noise('nz', 'out.ps_Out.o')
    z.ac('ac', 'fil.ps_In.i', 'out.ps_Out.o', True)
    z.ac('acs', 'sum.b.i', 'out.ps_Out.o')
    z.fixed_order = True
    return z


def pol():
    z = Zoo()
    z.params = dict(deg=27.)
    z.el('laser', lambda s, P: optics().Laser(F=s.F_carrier_1064, power_W=1.))
    z.el('rot', lambda s, P: optics().PolarizationRotator(rotate_deg=P['deg']))
    z.el('am', lambda s, P: optics().AM())
    z.el('qwp', lambda s, P: optics().QuarterWavePlate(rotate_deg=33.))
    z.el('mir', lambda s, P: optics().PolarizingMirror(mirror_S=optics().Mirror(T_hr=.2), mirror_P=optics().Mirror(T_hr=.6, L_hr=.1)))
    z.el('circ', lambda s, P: optics().OpticalCirculator(N_ports=3))
    z.el('sel', lambda s, P: optics().PolarizingSelector())
    z.el('pdS', lambda s, P: optics().PD())
    z.el('pdP', lambda s, P: optics().PD())
    z.bond('laser.po_Fr', 'rot.po_Fr')
    z.bond('rot.po_Bk', 'circ.P0')
    z.bond('circ.P1', 'am.po_Fr')
    z.bond('am.po_Bk', 'qwp.po_Fr')
    z.bond('qwp.po_Bk', 'mir.po_Fr')
    z.bond('circ.P2', 'sel.po_Fr')
    z.bond('sel.Bk_S', 'pdS.po_Fr')
    z.bond('sel.Bk_P', 'pdP.po_Fr')
    z.dc('S', 'pdS.Wpd.o').dc('P', 'pdP.Wpd.o')
    z.noise('nS', 'pdS.Wpd.o')
    z.ac('am_P', 'am.Drv.i', 'pdP.Wpd.o')
    return z


def shg():
    z = Zoo()
    z.params = dict(P=1., nlg=.06)
    z.kw = dict()
    z.el('laser', lambda s, P: optics().Laser(F=s.F_carrier_1064, power_W=P['P']))
    z.el('ktp', lambda s, P: optics().NonlinearCrystal(nlg=P['nlg'], length_mm=10, N_ode=10))
    z.el('dc', lambda s, P: optics().HarmonicMirror(mirror_H1=optics().Mirror(T_hr=1), mirror_H2=optics().Mirror(T_hr=0), AOI_deg=45))
    z.el('am', lambda s, P: optics().AM())
    z.el('pdR', lambda s, P: optics().PD())
    z.el('pdG', lambda s, P: optics().PD())
    z.bond('laser.po_Fr', 'am.po_Fr')
    z.bond('am.po_Bk', 'ktp.po_Fr')
    z.bond('ktp.po_Bk', 'dc.po_FrA')
    z.bond('dc.po_BkA', 'pdR.po_Fr')
    z.bond('dc.po_FrB', 'pdG.po_Fr')
    z.dc('R', 'pdR.Wpd.o').dc('G', 'pdG.Wpd.o')
    z.ac('am_G', 'am.Drv.i', 'pdG.Wpd.o')
    z.noise('nG', 'pdG.Wpd.o')
    z.slow = True
    return z


def vco():
    z = Zoo()
    z.params = dict(A=1.5, F=2e8)

    def sg():
        import phasor.signals as S
        return S

    def f(s, P):
        import phasor.base as base
        return base.Frequency(F_Hz=P['F'], order=1)
    z.el('F1', f)
    z.el('gen', lambda s, P: sg().SignalGenerator(F=s.F1, amplitude=P['A']))
    z.el('mod', lambda s, P: sg().Modulator())
    z.el('mix', lambda s, P: sg().Mixer())
    z.el('ms', lambda s, P: sg().MeanSquareMixer())
    z.bond('gen.ps_Out', 'mod.ps_In')
    z.bond('gen.ps_Out', 'mix.LO')
    z.bond('mod.ps_Out', 'mix.ps_In')
    z.bond('mod.ps_Out', 'ms.ps_In')
    z.dc('I', 'mix.ps_R_I.o').dc('Q', 'mix.ps_R_Q.o').dc('MS', 'ms.MS.o')
    z.ac('ampI', 'mod.Mod_amp.i', 'mix.ps_R_I.o').ac('phQ', 'mod.Mod_phase.i', 'mix.ps_R_Q.o').ac('phI', 'mod.Mod_phase.i', 'mix.ps_R_I.o')
    z.fixed_order = True
    return z


def aom():
    z = Zoo()
    z.params = dict(A=.4)

    def sg():
        import phasor.signals as S
        return S

    def f(s, P):
        import phasor.base as base
        return base.Frequency(F_Hz=200e6, order=1)
    z.el('F1', f)
    z.el('gen', lambda s, P: sg().SignalGenerator(F=s.F1, amplitude=P['A']))
    z.el('laser', lambda s, P: optics().Laser(F=s.F_carrier_1064, power_W=1.))
    z.el('aom', lambda s, P: optics().AOM(N_ode=10))
    z.el('pd0', lambda s, P: optics().PD())
    z.el('pd1', lambda s, P: optics().PD())
    z.bond('gen.ps_Out', 'aom.Drv')
    z.bond('laser.po_Fr', 'aom.po_FrA')
    z.bond('aom.po_BkA', 'pd0.po_Fr')
    z.bond('aom.po_BkB', 'pd1.po_Fr')
    z.dc('d0', 'pd0.Wpd.o').dc('d1', 'pd1.Wpd.o')
    z.fixed_order = True
    z.slow = True
    return z


def hom():
    z = Zoo()
    z.params = dict(P=1., d=1e-9)
    z.el('laser', lambda s, P: optics().Laser(F=s.F_carrier_1064, power_W=P['P']))
    z.el('bs', lambda s, P: optics().Mirror(T_hr=.5, AOI_deg=45))
    z.el('mX', lambda s, P: optics().Mirror(T_hr=0))
    z.el('mY', lambda s, P: optics().Mirror(T_hr=0))
    z.el('sX', lambda s, P: optics().Space(L_m=1e4, L_detune_m=P['d']))
    z.el('sY', lambda s, P: optics().Space(L_m=1e4))
    z.el('hd', lambda s, P: optics().HiddenVariableHomodynePD(source_port=s.laser.po_Fr.o, phase_deg=90, include_quanta=True))
    z.el('asym', lambda s, P: optics().PD())
    z.bond('laser.po_Fr', 'bs.po_FrA')
    z.bond('bs.po_BkA', 'sX.po_Fr')
    z.bond('sX.po_Bk', 'mX.po_Fr')
    z.bond('bs.po_FrB', 'sY.po_Fr')
    z.bond('sY.po_Bk', 'mY.po_Fr')
    z.bond('bs.po_BkB', 'hd.po_Fr')
    z.bond('hd.po_Bk', 'asym.po_Fr')

    def hac(s, P, p):
        import phasor.readouts as ro
        return ro.HomodyneACReadout(portNI=p('hd.rtQuantumI.o'), portNQ=p('hd.rtQuantumQ.o'), portD=p('mX.Z.d.o'))
    z.read('hac', hac, [('AC', lambda r: r.AC_sensitivity), ('PSD', lambda r: r.AC_PSD)])
    z.dc('asym_DC', 'asym.Wpd.o')
    z.fixed_order = True
    return z


ALL = dict(fp=fp, mich=mich, pdh=pdh, vir=vir, opamp=opamp, mech=mech, optomech=optomech, loop=loop, pol=pol, shg=shg, nsum=nsum, vco=vco, aom=aom, hom=hom)
