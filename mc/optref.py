# -*- coding: utf-8 -*-
"""
Reference for linear optical networks: every element scatters the field amplitudes (two polarizations) entering its
ports, every link joins two ports, the fields are the solution of the scattering equations at the carrier and at the two
sidebands of the carrier.

A network is dict(elements=[[type, params], ...], links=[[[e, port], [e, port]], ...]).
Ports which are not linked have vacuum entering.
"""
import numpy as np

C = 299792458.
H = 6.6260700408e-34
LAM = 1064e-9
POLS = ('S', 'P')

P2 = ['po_Fr', 'po_Bk']
P4 = ['po_FrA', 'po_FrB', 'po_BkA', 'po_BkB']


def ports_of(typ, par):
    if typ in ('LAS', 'PD', 'VAC'):
        return ['po_Fr']
    if typ in ('M', 'SP', 'MPD', 'ROT', 'FAR', 'WP', 'AM', 'PM', 'AMPM', 'HWP', 'QWP', 'PMIR'):
        return P2
    if typ in ('M4', 'PBS'):
        return P4
    if typ == 'CIRC':
        return ['P{0}'.format(k) for k in range(par.get('N', 3))]
    if typ == 'PSEL':
        return ['po_Fr', 'Bk_P', 'Bk_S']
    raise KeyError(typ)


def element(typ, par, sys):
    from phasor import optics as o
    par = dict(par)
    if typ == 'LAS':
        return o.Laser(F=sys.F_carrier_1064, power_W=par['P'], polarization=par.get('pol', 'S'), phase_deg=par.get('phase_deg', 0))
    if typ == 'PD':
        return o.PD()
    if typ == 'VAC':
        return o.VacuumTerminator()
    if typ == 'MPD':
        return o.MagicPD()
    if typ == 'SP':
        return o.Space(L_m=par['L'], L_detune_m=par.get('d', 0))
    if typ in ('M', 'M4'):
        kw = dict(T_hr=par['T'], L_hr=par.get('L', 0), L_t=par.get('Lt', 0), flip_sign=par.get('flip', False),
                  phase_deg=par.get('phase_deg', 0), R_backscatter=par.get('BS', 0), backscatter_phase_deg=par.get('bs_deg', 0))
        if typ == 'M4':
            kw['AOI_deg'] = par.get('AOI', 45)
        return o.Mirror(**kw)
    if typ == 'ROT':
        return o.PolarizationRotator(rotate_deg=par['deg'])
    if typ == 'FAR':
        return o.FaradayRotator(rotate_deg=par['deg'])
    if typ == 'WP':
        return o.WavePlate(cplgS=complex(*par['S']), cplgP=complex(*par['P']))
    if typ == 'HWP':
        return o.HalfWavePlate(rotate_deg=par['deg'])
    if typ == 'QWP':
        return o.QuarterWavePlate(rotate_deg=par['deg'])
    if typ == 'AM':
        return o.AM()
    if typ == 'PM':
        return o.PM()
    if typ == 'AMPM':
        return o.AMPM()
    if typ == 'CIRC':
        return o.OpticalCirculator(N_ports=par.get('N', 3))
    if typ == 'PSEL':
        return o.PolarizingSelector()
    if typ == 'PMIR':
        return o.PolarizingMirror(mirror_S=o.Mirror(T_hr=par['TS'], L_hr=par.get('L', 0)), mirror_P=o.Mirror(T_hr=par['TP'], L_hr=par.get('L', 0)))
    if typ == 'PBS':
        from phasor.optics.polarization import PolarizingBeamsplitter
        return PolarizingBeamsplitter(pass_polarization=par.get('pass', 'P'), AOI_deg=45,
                                      selection_defect=par.get('sd', 0), rejection_defect=par.get('rd', 0))
    raise KeyError(typ)


def rot(deg):
    """out = R in, in the basis (S, P): S goes to P with +sin"""
    c, s = np.cos(np.deg2rad(deg)), np.sin(np.deg2rad(deg))
    return np.array([[c, -s], [s, c]], dtype=complex)


I2 = np.eye(2, dtype=complex)


def mirror_smat(par, four, pol=None):
    """{(pin, pout): amplitude}, with the loss going to vacuum"""
    T = par['T'] - par.get('Lt', 0)
    R = 1 - par['T'] - par.get('L', 0) - par.get('BS', 0)
    t, r = T**.5, R**.5
    if par.get('flip'):
        r = -r
    ph = np.exp(1j * np.deg2rad(par.get('phase_deg', 0)))
    bs = par.get('BS', 0)**.5 * (-1 if par.get('flip') else 1) * np.exp(1j * np.deg2rad(par.get('bs_deg', 0)))
    S = {}
    if four:
        S = {
            ('po_FrA', 'po_FrB'): r * ph, ('po_FrB', 'po_FrA'): r * ph,
            ('po_BkA', 'po_BkB'): -r / ph, ('po_BkB', 'po_BkA'): -r / ph,
            ('po_FrA', 'po_BkA'): t, ('po_BkA', 'po_FrA'): t, ('po_FrB', 'po_BkB'): t, ('po_BkB', 'po_FrB'): t,
        }
        if par.get('BS'):
            S.update({('po_FrA', 'po_FrA'): bs, ('po_FrB', 'po_FrB'): -np.conj(bs), ('po_BkA', 'po_BkA'): -np.conj(bs), ('po_BkB', 'po_BkB'): bs})
    else:
        S = {('po_Fr', 'po_Fr'): r * ph, ('po_Bk', 'po_Bk'): -r / ph, ('po_Fr', 'po_Bk'): t, ('po_Bk', 'po_Fr'): t}
    return S


def smat(typ, par, F):
    """{(pin, pout): 2x2 matrix}: field amplitude at the carrier plus F Hz"""
    if typ in ('LAS', 'PD', 'VAC'):
        return {}
    if typ in ('M', 'M4'):
        return dict((k, v * I2) for k, v in mirror_smat(par, typ == 'M4').items())
    if typ == 'SP':
        ph = np.exp(-2j * np.pi * (F * par['L'] / C + par.get('d', 0) / LAM))
        return {('po_Fr', 'po_Bk'): ph * I2, ('po_Bk', 'po_Fr'): ph * I2}
    if typ in ('MPD', 'AM', 'PM', 'AMPM'):
        return {('po_Fr', 'po_Bk'): I2, ('po_Bk', 'po_Fr'): I2}
    if typ == 'ROT':
        return {('po_Fr', 'po_Bk'): rot(par['deg']), ('po_Bk', 'po_Fr'): rot(-par['deg'])}
    if typ == 'FAR':
        return {('po_Fr', 'po_Bk'): rot(par['deg']), ('po_Bk', 'po_Fr'): rot(par['deg'])}
    if typ == 'WP':
        D = np.diag([complex(*par['S']), complex(*par['P'])])
        return {('po_Fr', 'po_Bk'): D, ('po_Bk', 'po_Fr'): D}
    if typ in ('HWP', 'QWP'):
        D = np.diag([1, -1 if typ == 'HWP' else 1j])
        a = par['deg']
        J = np.dot(rot(-a), np.dot(D, rot(a)))
        return {('po_Fr', 'po_Bk'): J, ('po_Bk', 'po_Fr'): J}
    if typ == 'CIRC':
        N = par.get('N', 3)
        return dict((('P{0}'.format(k), 'P{0}'.format((k + 1) % N)), I2) for k in range(N))
    if typ == 'PSEL':
        S, P = np.diag([1, 0]), np.diag([0, 1])
        return {('po_Fr', 'Bk_S'): S, ('Bk_S', 'po_Fr'): S, ('po_Fr', 'Bk_P'): P, ('Bk_P', 'po_Fr'): P}
    if typ in ('PMIR', 'PBS'):
        four = typ == 'PBS'
        if four:
            sel, rej = dict(T=1 - par.get('sd', 0)), dict(T=par.get('rd', 0))
            pS, pP = (rej, sel) if par.get('pass', 'P') == 'P' else (sel, rej)
        else:
            pS, pP = dict(T=par['TS'], L=par.get('L', 0)), dict(T=par['TP'], L=par.get('L', 0))
        SS, SP = mirror_smat(pS, four), mirror_smat(pP, four)
        return dict((k, np.diag([SS[k], SP[k]])) for k in SS)
    raise KeyError(typ)


class Ref(object):
    def __init__(self, net):
        self.net = net
        self.idx = {}
        for e, (typ, par) in enumerate(net['elements']):
            for p in ports_of(typ, par):
                self.idx[e, p] = len(self.idx)
        self.partner = {}
        for a, b in net['links']:
            a, b = tuple(a), tuple(b)
            self.partner[a] = b
            self.partner[b] = a
        self._A = {}
        # carrier
        self.carrier_src = np.zeros(2 * len(self.idx), dtype=complex)
        for e, (typ, par) in enumerate(net['elements']):
            if typ == 'LAS':
                pol = POLS.index(par.get('pol', 'S'))
                self.carrier_src[2 * self.idx[e, 'po_Fr'] + pol] += par['P']**.5 * np.exp(1j * np.deg2rad(par.get('phase_deg', 0)))
        self.ok = np.linalg.cond(self.A(0.)) < 1e5
        if self.ok:
            self.a0 = self.solve(0., self.carrier_src)

    def A(self, F):
        """(1 - S P): acts on outgoing fields"""
        if F not in self._A:
            n = 2 * len(self.idx)
            M = np.zeros((n, n), dtype=complex)
            for e, (typ, par) in enumerate(self.net['elements']):
                for (pi, po), J in smat(typ, par, F).items():
                    src = self.partner.get((e, pi))
                    if src is None:
                        continue
                    i, o = self.idx[src], self.idx[e, po]
                    M[2 * o:2 * o + 2, 2 * i:2 * i + 2] += J
            self._A[F] = np.eye(n) - M
        return self._A[F]

    def solve(self, F, src):
        return np.linalg.solve(self.A(F), src)

    def inc(self, a, e, p):
        """field entering a port"""
        q = self.partner.get((e, p))
        if q is None:
            return np.zeros(2, dtype=complex)
        i = self.idx[q]
        return a[2 * i:2 * i + 2]

    def out(self, a, e, p):
        i = self.idx[e, p]
        return a[2 * i:2 * i + 2]

    def power(self, e, p):
        return np.sum(abs(self.inc(self.a0, e, p))**2)

    def drive_src(self, e, kind):
        """sideband field created at the outputs for a unit drive, (upper, lower)"""
        typ, par = self.net['elements'][e]
        src = np.zeros(2 * len(self.idx), dtype=complex)
        if kind == 'Z':
            S = mirror_smat(dict(par, BS=0) if typ == 'M' else par, typ == 'M4')
            cosA = 1. if typ == 'M' else (2**-.5 if par.get('AOI', 45) == 45 else np.cos(np.deg2rad(par['AOI'])))
            for (pi, po), v in S.items():
                if pi[3:5] != po[3:5]:
                    continue
                sign = 1 if pi.startswith('po_Fr') else -1
                o = self.idx[e, po]
                src[2 * o:2 * o + 2] += v * self.inc(self.a0, e, pi) * (sign * 1j * (-4 * np.pi / LAM) * cosA)
        else:
            # DrvFM integrates: phase = drive / (-i F)
            g = dict(AM=.5, PM=.5j)[kind]
            for pi, po in (('po_Fr', 'po_Bk'), ('po_Bk', 'po_Fr')):
                o = self.idx[e, po]
                src[2 * o:2 * o + 2] += g * self.inc(self.a0, e, pi)
        return src

    def sidebands(self, e, kind, F):
        src = self.drive_src(e, kind)
        return self.solve(F, src), self.solve(-F, src)

    def power_response(self, sb, e, p):
        bp, bm = sb
        a = self.inc(self.a0, e, p)
        return np.sum(np.conj(a) * self.inc(bp, e, p) + a * np.conj(self.inc(bm, e, p)))

    def vacua(self):
        """(port index, polarization, amplitude) of every independent vacuum field which enters the network"""
        if not hasattr(self, '_vac'):
            self._vac = []
            for e, (typ, par) in enumerate(self.net['elements']):
                for p in ports_of(typ, par):
                    i = self.idx[e, p]
                    if typ in ('LAS', 'PD', 'VAC'):
                        amps = (1., 1.)
                    elif typ in ('M', 'M4'):
                        amps = ((par.get('L', 0) + par.get('Lt', 0))**.5,) * 2
                    elif typ == 'PMIR':
                        amps = (par.get('L', 0)**.5,) * 2
                    else:
                        continue
                    for pol in (0, 1):
                        if amps[pol]:
                            self._vac.append((i, pol, amps[pol]))
        return self._vac

    def noise(self, e, p, F):
        """one sided noise density of the power which enters the port, every free input carrying vacuum noise"""
        a = self.inc(self.a0, e, p)
        q = self.partner.get((e, p))
        if q is None:
            return 0.
        i = self.idx[q]
        tot = 0.
        for f in (F, -F):
            w = np.zeros(2 * len(self.idx), dtype=complex)
            w[2 * i:2 * i + 2] = np.conj(a)
            v = np.linalg.solve(self.A(f).T, w)
            tot += sum(abs(v[2 * j + pol])**2 * amp**2 for j, pol, amp in self.vacua())
        return H * C / LAM * tot


def _shot(self, e, p):
    return 2 * H * C / LAM * self.power(e, p)


Ref.shot_noise = _shot


def free_ports(net):
    used = set(tuple(x) for l in net['links'] for x in l)
    return [[e, p] for e, (typ, par) in enumerate(net['elements']) for p in ports_of(typ, par) if (e, p) not in used]


def with_detectors(net, magic=True):
    """
    puts a photodiode on every free port, and a transparent one (both orientations alternate) into every link
    returns the network and the [element, port] list of detectors
    """
    els = list(net['elements'])
    links = []
    det = []
    for k, (a, b) in enumerate(net['links']):
        if magic:
            els.append(['MPD', {}])
            m = len(els) - 1
            fr, bk = ('po_Fr', 'po_Bk') if k % 2 == 0 else ('po_Bk', 'po_Fr')
            links.append([a, [m, fr]])
            links.append([[m, bk], b])
            det.append([m, 'po_Fr'])
        else:
            links.append([a, b])
    for e, p in free_ports(net):
        els.append(['PD', {}])
        m = len(els) - 1
        links.append([[e, p], [m, 'po_Fr']])
        det.append([m, 'po_Fr'])
    return dict(elements=els, links=links), det


def build(net, F_AC, **kw):
    import phasor.system as system
    sys = system.BGSystem(F_AC=F_AC, **kw)
    objs = []
    for e, (typ, par) in enumerate(net['elements']):
        sys.insert(element(typ, par, sys), 'el{0}'.format(e))
        objs.append(getattr(sys, 'el{0}'.format(e)))
    for k, ((a, p), (b, q)) in enumerate(net['links']):
        if k % 2:
            a, p, b, q = b, q, a, p
        sys.bond(getattr(objs[a], p), getattr(objs[b], q))
    return sys, objs
