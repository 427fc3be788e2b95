# -*- coding: utf-8 -*-
"""
Frequency conversion: nonlinear crystals and acousto optic modulators.
"""
import itertools
import numpy as np
from mc.core import Family
from mc.optref import C, H, LAM

ASSUMPTIONS = [
    "oracle of crystals: the coupled wave equations of fundamental and harmonic with their linearization (modulation sidebands and vacuum), integrated by a fourth order method",
    "the simulator integrates in N_ode first order steps: its answers at N_ode, 2 N_ode and 4 N_ode are extrapolated",
    "oracle of modulators: diffraction efficiency sin^2 of half pi times the drive amplitude, frequency shift by the drive, unitarity between the two ports",
]
F_AC = [20., 777.]
N_ODE = (16, 32, 64)
P_LO = 1e8
QUADS = ('RI', 'RQ', 'GI', 'GQ')


# reference -----------------------------------------------------------------

class Wave(object):
    """carriers of fundamental and harmonic a[2], perturbations W[4, K]: (upper, conjugate lower) of both"""
    def __init__(self, a, W, F):
        self.a, self.W, self.F = np.array(a, dtype=complex), np.array(W, dtype=complex), F

    def crystal(self, g, n=300):
        def rhs(a, W):
            a1, a2 = a
            da = np.array([1j * g * a2 * np.conj(a1), 1j * g * a1**2])
            u1, v1, u2, v2 = W
            dW = np.array([
                1j * g * (a2 * v1 + np.conj(a1) * u2),
                -1j * g * (np.conj(a2) * u1 + a1 * v2),
                2j * g * a1 * u1,
                -2j * g * np.conj(a1) * v1,
            ])
            return da, dW
        h = 1. / n
        a, W = self.a, self.W
        for k in range(n):
            k1 = rhs(a, W)
            k2 = rhs(a + h / 2 * k1[0], W + h / 2 * k1[1])
            k3 = rhs(a + h / 2 * k2[0], W + h / 2 * k2[1])
            k4 = rhs(a + h * k3[0], W + h * k3[1])
            a = a + h / 6 * (k1[0] + 2 * k2[0] + 2 * k3[0] + k4[0])
            W = W + h / 6 * (k1[1] + 2 * k2[1] + 2 * k3[1] + k4[1])
        self.a, self.W = a, W

    def phase(self, L, d):
        th = 2 * np.pi * d / LAM
        tau = 2 * np.pi * self.F * L / C
        for i in (0, 1):
            self.a[i] *= np.exp(-1j * (i + 1) * th)
            self.W[2 * i] *= np.exp(-1j * ((i + 1) * th + tau))
            self.W[2 * i + 1] *= np.exp(1j * ((i + 1) * th - tau))

    def attenuate(self, T):
        self.a = self.a * T**.5
        self.W = self.W * T**.5

    def vacuum(self, amp):
        """independent vacuum in the four perturbations, in sqrt of the photon energy of the fundamental"""
        new = np.diag([amp, amp, amp * 2**.5, amp * 2**.5]).astype(complex)
        self.W = np.concatenate([self.W, new], axis=1)


def reference(case, F):
    """(carriers, responses {drive: 4-vector}, vacuum columns)"""
    aR, aG = case['R'][0]**.5 * np.exp(1j * np.deg2rad(case['R'][1])), case['G'][0]**.5 * np.exp(1j * np.deg2rad(case['G'][1]))
    W = np.zeros((4, 4), dtype=complex)
    for j, (i, g) in enumerate(((0, .5), (0, .5j), (1, .5), (1, .5j))):
        a = (aR, aG)[i]
        W[2 * i, j] = g * a
        W[2 * i + 1, j] = np.conj(g * a)
    w = Wave([aR, aG], W, F)
    w.vacuum(1.)
    seq = [tuple(x) for x in case['seq']]
    if case.get('fold'):
        seq = seq + seq[::-1]
    for k, (typ, par) in enumerate(seq):
        if typ == 'X':
            w.crystal(par[0] * par[1])
        elif typ == 'SP':
            w.phase(*par)
        elif typ == 'M':
            w.attenuate(1 - par)
            w.vacuum(par**.5)
        if case.get('fold') and k == len(seq) // 2 - 1:
            # reflection from the front of a mirror: no change
            pass
    return w


def build(case, N, noise):
    import phasor.system as system
    import phasor.optics as o
    import phasor.readouts as ro
    sys = system.BGSystem(F_AC=np.array(F_AC))
    sys.own.R = o.Laser(F=sys.F_carrier_1064, power_W=case['R'][0], phase_deg=case['R'][1])
    sys.own.G = o.Laser(F=sys.F_carrier_1064, multiple=2, power_W=case['G'][0], phase_deg=case['G'][1])
    sys.own.mix = o.HarmonicSelector()
    sys.own.split = o.HarmonicSelector()
    if noise != 'quad':
        sys.own.pdR = o.PD()
        sys.own.pdG = o.PD()
    mods = []
    for nm in ('R', 'G'):
        sys.insert(o.AM(), 'am' + nm)
        sys.insert(o.PM(), 'pm' + nm)
        am, pm = getattr(sys, 'am' + nm), getattr(sys, 'pm' + nm)
        sys.bond(getattr(sys, nm).po_Fr, am.po_Fr)
        sys.bond(am.po_Bk, pm.po_Bk)
        sys.bond(pm.po_Fr, getattr(sys.mix, 'Bk_H1' if nm == 'R' else 'Bk_H2'))
        mods += [am, pm]
    port = sys.mix.po_Fr
    if case.get('fold'):
        sys.own.circ = o.OpticalCirculator(N_ports=3)
        sys.bond(port, sys.circ.P0)
        port = sys.circ.P1
    for k, (typ, par) in enumerate(case['seq']):
        if typ == 'X':
            el = o.NonlinearCrystal(nlg=par[0], length_mm=par[1], N_ode=N)
        elif typ == 'SP':
            el = o.Space(L_m=par[0], L_detune_m=par[1])
        else:
            el = o.Mirror(T_hr=1 - par)
        sys.insert(el, 'el{0}'.format(k))
        el = getattr(sys, 'el{0}'.format(k))
        a, b = (el.po_Fr, el.po_Bk) if (k + case.get('rev', 0)) % 2 == 0 else (el.po_Bk, el.po_Fr)
        sys.bond(port, a)
        port = b
    if case.get('fold'):
        sys.own.end = o.Mirror(T_hr=0.)
        sys.bond(port, sys.end.po_Fr)
        port = sys.circ.P2
    sys.bond(port, sys.split.po_Fr)
    if noise == 'quad':
        # the quadratures of both colours, relative to strong light of the phases asked for
        for nm, b, m in (('R', sys.split.Bk_H1, 1), ('G', sys.split.Bk_H2, 2)):
            sys.insert(o.Laser(F=sys.F_carrier_1064, multiple=m, power_W=P_LO, phase_deg=case['lo'][m - 1]), 'lo' + nm)
            sys.insert(o.HiddenVariableHomodynePD(source_port=getattr(sys, 'lo' + nm).po_Fr.o, include_quanta=True), 'h' + nm)
            sys.bond(b, getattr(sys, 'h' + nm).po_Fr)
        pm = dict((nm + q, getattr(getattr(sys, 'h' + nm), 'rtQuantum' + q).o) for nm in 'RG' for q in 'IQ')
        sys.insert(ro.NoiseReadout(port_map=pm), 'noise')
        CSD = sys.noise.CSD
        return np.array([[CSD.get((a, b), 0) * np.ones(len(F_AC)) for b in QUADS] for a in QUADS], dtype=complex)
    sys.bond(sys.split.Bk_H1, sys.pdR.po_Fr)
    sys.bond(sys.split.Bk_H2, sys.pdG.po_Fr)
    for nm in ('R', 'G'):
        pd = getattr(sys, 'pd' + nm)
        sys.insert(ro.DCReadout(port=pd.Wpd.o), 'dc' + nm)
        if noise != 'dc':
            for j, m in enumerate(mods):
                sys.insert(ro.ACReadout(portD=m.Drv.i, portN=pd.Wpd.o, include_noise=False), 'ac{0}{1}'.format(nm, j))
    if noise is True:
        sys.insert(ro.NoiseReadout(port_map=dict(R=sys.pdR.Wpd.o, G=sys.pdG.Wpd.o)), 'noise')
    out = []
    one = np.ones(len(F_AC))
    for nm in ('R', 'G'):
        out.append(getattr(sys, 'dc' + nm).DC_readout * one)
        if noise != 'dc':
            for j in range(4):
                out.append(getattr(sys, 'ac{0}{1}'.format(nm, j)).AC_sensitivity * one)
    if noise is True:
        CSD = sys.noise.CSD
        for a in 'RG':
            for b in 'RG':
                out.append(CSD.get((a, b), 0) * one / (H * C / LAM))
    return np.array(out, dtype=complex)


def labels(noise):
    out = []
    for nm in ('R', 'G'):
        out.append('power ' + nm)
        if noise != 'dc':
            out += ['response of {0} to {1}'.format(nm, d) for d in ('AM of R', 'PM of R', 'AM of G', 'PM of G')]
    if noise is True:
        out += ['noise {0}{1}'.format(a, b) for a in 'RG' for b in 'RG']
    return out


def run_crystal(case, ctx):
    noise = case.get('noise', False)
    got = [build(case, N, noise) for N in N_ODE]
    # the error is a series in 1/N
    e1 = [2 * got[1] - got[0], 2 * got[2] - got[1]]
    ext = (4 * e1[1] - e1[0]) / 3
    want = []
    for F in F_AC:
        w = reference(case, F)
        row = []
        R = [np.conj(w.a[i]) * w.W[2 * i] + w.a[i] * w.W[2 * i + 1] for i in (0, 1)]
        for i in (0, 1):
            row.append(abs(w.a[i])**2)
            if noise != 'dc':
                row += list(R[i][:4])
        if noise is True:
            vac = [r[4:] for r in R]
            for i in (0, 1):
                for j in (0, 1):
                    row.append(np.sum(vac[i] * np.conj(vac[j])))
        want.append(row)
    want = np.array(want).T
    P = case['R'][0] + case['G'][0]
    for k, nm in enumerate(labels(noise)):
        sc = P * (3. if nm.startswith('noise') else 1.)
        ctx.require(bool(np.all(abs(ext[k] - want[k]) <= 1.5e-3 * sc)),
                    lambda: "{0} of {1}: got {2} (N_ode {3}), extrapolated {4}, expected {5}".format(nm, case, [g[k] for g in got], N_ODE, ext[k], want[k]))
        # and the error of the first order method is bounded
        ctx.require(bool(np.all(abs(got[2][k] - want[k]) <= .06 * sc)),
                    lambda: "{0} of {1} with N_ode={2}: got {3}, expected {4}".format(nm, case, N_ODE[2], got[2][k], want[k]))
        ctx.step(len(F_AC))
    ctx.cls('fold' if case.get('fold') else 'single pass')
    ctx.state(case)
    ctx.trace()


def run_quad(case, ctx):
    got = [build(case, N, 'quad') for N in N_ODE]
    e1 = [2 * got[1] - got[0], 2 * got[2] - got[1]]
    ext = (4 * e1[1] - e1[0]) / 3
    want = []
    for F in F_AC:
        w = reference(case, F)
        q = []
        for i in (0, 1):
            l = np.exp(1j * np.deg2rad(case['lo'][i]))
            u, v = np.conj(l) * w.W[2 * i, 4:], l * w.W[2 * i + 1, 4:]
            q += [(u + v) / (2. * (i + 1))**.5, 1j * (u - v) / (2. * (i + 1))**.5]
        want.append(np.array(q).dot(np.conj(np.array(q).T)))
    want = np.moveaxis(np.array(want), 0, -1)
    sc = max(1., abs(want).max())
    for j, k in itertools.product(range(4), repeat=2):
        ctx.require(bool(np.all(abs(ext[j, k] - want[j, k]) <= 1.5e-3 * sc)),
                    lambda: "correlation of quadratures {0} and {1} of {2}: got {3} (N_ode {4}), extrapolated {5}, expected {6}".format(
                        QUADS[j], QUADS[k], case, [g[j, k] for g in got], N_ODE, ext[j, k], want[j, k]))
        ctx.step(len(F_AC))
    ctx.cls('quadratures')
    ctx.state(case)
    ctx.trace()


LOS = [(0., 0.), (40., -75.)]


def cases_quad(tier):
    for i, c in enumerate(cases_crystal(tier)):
        if tier == 'quick' and len(c['seq']) > 1 and i % 3:
            continue
        for lo in LOS if len(c['seq']) == 1 or tier != 'quick' else LOS[1:]:
            yield dict(c, lo=lo)


def run_stand(case, ctx):
    """the model of a crystal test stand"""
    import phasor.system as system
    from phasor.optics.models import KTP_test_stand as K
    outs = []
    for N in N_ODE:
        sys = system.BGSystem(F_AC=777., ctree=dict(stand=dict(ktp=dict(nlg=case['nlg'], N_ode=N))))
        sys.own.stand = getattr(K, case['stand'])()
        st = sys.stand
        lst, mat = st.full_noise_matrix(lst=list(case['order']), display=False)
        ctx.require(list(lst) == list(case['order']), 'names of the noise matrix')
        csd = np.array([[np.real(st.AC_N.CSD[a, b]) for b in case['order']] for a in case['order']])
        ctx.close(mat, csd, lambda: 'noise matrix of {0}'.format(case), rtol=1e-9, atol=2e-10)
        outs.append([np.concatenate([[st.DC_R.DC_readout, st.DC_G.DC_readout], mat.ravel()])][0])
        ctx.step()
    if case['stand'] == 'KTPTestStand':
        e1 = [2 * outs[1] - outs[0], 2 * outs[2] - outs[1]]
        ext = (4 * e1[1] - e1[0]) / 3
        w = reference(dict(R=(1., 0.), G=(0., 0.), seq=[('X', (case['nlg'], 10.))]), 777.)
        q = {}
        for i, n in enumerate('RG'):
            l = np.exp(1j * np.deg2rad((0., 90.)[i]))
            u, v = np.conj(l) * w.W[2 * i, 4:], l * w.W[2 * i + 1, 4:]
            q[n + 'I'], q[n + 'Q'] = (u + v) / (2. * (i + 1))**.5, 1j * (u - v) / (2. * (i + 1))**.5
        # the noise of the reference light (1 W) beats with the light measured
        cov = np.array([[np.real(np.sum(q[a] * np.conj(q[b]))) + (abs(w.a['RG'.index(a[0])])**2 if a == b else 0.) for b in case['order']] for a in case['order']])
        ctx.close(ext, np.concatenate([abs(w.a)**2, cov.ravel()]), lambda: 'powers and noise matrix of {0}'.format(case), rtol=0, atol=3e-3 * max(1., abs(cov).max()))
    ctx.cls(case['stand'])
    ctx.state(case)
    ctx.trace()


def cases_stand(tier):
    for stand, nlgs in (('KTPTestStand', (.02, .05, .1)), ('SHGTestStandResonant', (.0005, .003)), ('OPOTestStandResonant', (.02, .1))):
        for g in nlgs:
            for order in (QUADS, QUADS[::-1], ('GI', 'RI')) if g == .05 or tier != 'quick' else (QUADS,):
                yield dict(stand=stand, nlg=g, order=order)


# the strength of a crystal is nlg [1/sqrt(W)/mm] * length [mm]
EL = [('X', (.04, 10.)), ('X', (.05, 4.)), ('SP', (3e5, 1.1e-7)), ('M', .3)]
INP = [((1., 0.), (0., 0.)), ((1., 0.), (.5, 90.)), ((.8, 30.), (.7, 0.)), ((.5, 0.), (1.5, -90.)), ((0., 0.), (1., 20.)), ((1.2, -50.), (.1, 200.))]


def cases_crystal(tier):
    n = 2 if tier == 'quick' else 3
    for k in range(1, n + 1):
        for seq in itertools.product(EL, repeat=k):
            if not any(t == 'X' for t, p in seq):
                continue
            for j, (R, G) in enumerate(INP):
                if tier == 'quick' and k == 2 and (j + len(str(seq))) % 2:
                    continue
                if k == 3 and j % 2:
                    continue
                for fold in (0, 1):
                    if fold and (any(t == 'M' for t, p in seq) or k == 3):
                        continue
                    yield dict(R=R, G=G, seq=seq, fold=fold, rev=j % 2, noise=True)


def cases_strength(tier):
    """conversion of every input by every strength"""
    for g in (.01, .03, .06, .09) if tier == 'quick' else (.01, .02, .03, .045, .06, .075, .09):
        for PR in (0., .3, 1., 1.7):
            for PG in (0., .4, 1.1):
                for ph in ((0., 70., -130.) if PR and PG else (0.,)):
                    if PR + PG and (PR + PG)**.5 * g * 10 < 1.4:
                        yield dict(R=(PR, 0.), G=(PG, ph), seq=[('X', (g, 10.))], noise='dc')


# modulators ------------------------------------------------------------------

F_RF = 200e6
A_N = (6, 12, 24)
OTHER = dict(A='B', B='A')


def aom_fields(case, eps={}):
    """{(port, order): field}: the modulator couples port A at order n and port B at order n+1 (n-1 from the back)"""
    f = {}
    for port, n, P, ph in case['src']:
        f[port, n] = P**.5 * np.exp(1j * np.deg2rad(ph))
    for st in case['seq']:
        if st[0] == 'AOM':
            _, amp, ph, rev, gen = st
            th = np.pi / 2 * amp * (1 + eps.get((gen, 'amp'), 0))
            up = np.exp(1j * (np.deg2rad(ph) + eps.get((gen, 'phase'), 0)))
            new = {}
            for (p, n), v in f.items():
                d = 1 if (p == 'A') != bool(rev) else -1
                if gen is None or abs(n + d) > case['order']:
                    # no drive, or light of an order which is not kept: transmitted
                    new[p, n] = new.get((p, n), 0) + v
                    continue
                new[p, n] = new.get((p, n), 0) + np.cos(th) * v
                q = OTHER[p], n + d
                new[q] = new.get(q, 0) - 1j * np.sin(th) * (up if d > 0 else np.conj(up)) * v
            f = new
        elif st[0] == 'SP':
            _, port, L, det = st
            f = {(p, n): v * (np.exp(-2j * np.pi * (det / LAM + n * F_RF * L / C)) if p == port else 1) for (p, n), v in f.items()}
        else:
            f = {(OTHER[p], n): v for (p, n), v in f.items()}
    return f


def aom_powers(case, eps={}):
    f = aom_fields(case, eps)
    return {q: sum(abs(v)**2 for (p, n), v in f.items() if p == q) for q in 'AB'}


def build_aom(case, N):
    import phasor.system as system
    import phasor.optics as o
    import phasor.readouts as ro
    import phasor.signals as S
    import phasor.base as base
    sys = system.BGSystem(F_AC=np.array(F_AC))
    sys.own.F1 = base.Frequency(F_Hz=F_RF, order=case['order'])
    port = {}
    for j, (p, n, P, ph) in enumerate(case['src']):
        kw = dict(classical_fdict={sys.F1: n}) if n else {}
        sys.insert(o.Laser(F=sys.F_carrier_1064, power_W=P, phase_deg=ph, **kw), 'las{0}'.format(j))
        port[p] = getattr(sys, 'las{0}'.format(j)).po_Fr
    gens = {}
    for k, st in enumerate(case['seq']):
        if st[0] == 'AOM':
            _, amp, ph, rev, g = st
            if g is not None and g not in gens:
                sys.insert(S.SignalGenerator(F=sys.F1, amplitude=amp, phase_deg=ph), 'gen{0}'.format(g))
                sys.insert(S.Modulator(), 'mod{0}'.format(g))
                gens[g] = getattr(sys, 'mod{0}'.format(g))
                sys.bond(getattr(sys, 'gen{0}'.format(g)).ps_Out, gens[g].ps_In)
            sys.insert(o.AOM(N_ode=N), 'aom{0}'.format(k))
            a = getattr(sys, 'aom{0}'.format(k))
            if g is not None:
                sys.bond(gens[g].ps_Out, a.Drv)
            i, u = ('Bk', 'Fr') if rev else ('Fr', 'Bk')
            for p in 'AB':
                if p in port:
                    sys.bond(port[p], getattr(a, 'po_' + i + p))
                port[p] = getattr(a, 'po_' + u + p)
        elif st[0] == 'SP':
            _, p, L, det = st
            if p in port:
                sys.insert(o.Space(L_m=L, L_detune_m=det), 'sp{0}'.format(k))
                sys.bond(port[p], getattr(sys, 'sp{0}'.format(k)).po_Fr)
                port[p] = getattr(sys, 'sp{0}'.format(k)).po_Bk
        else:
            port = {OTHER[p]: v for p, v in port.items()}
    for p in 'AB':
        sys.insert(o.PD(), 'pd' + p)
        pd = getattr(sys, 'pd' + p)
        sys.bond(port[p], pd.po_Fr)
        sys.insert(ro.DCReadout(port=pd.Wpd.o), 'dc' + p)
        for g in gens:
            for kd in ('amp', 'phase'):
                sys.insert(ro.ACReadout(portD=getattr(gens[g], 'Mod_' + kd).i, portN=pd.Wpd.o, include_noise=False), 'ac{0}{1}{2}'.format(p, g, kd))
    if case['noise']:
        sys.insert(ro.NoiseReadout(port_map=dict(A=sys.pdA.Wpd.o, B=sys.pdB.Wpd.o)), 'noise')
    one = np.ones(len(F_AC))
    out = {}
    for p in 'AB':
        out['power', p] = getattr(sys, 'dc' + p).DC_readout * one
        for g in gens:
            for kd in ('amp', 'phase'):
                out['response', p, g, kd] = getattr(sys, 'ac{0}{1}{2}'.format(p, g, kd)).AC_sensitivity * one
    if case['noise']:
        for a in 'AB':
            for b in 'AB':
                out['noise', a, b] = sys.noise.CSD.get((a, b), 0) * one / (H * C / LAM)
    return out


def run_aom(case, ctx):
    got = [build_aom(case, N) for N in A_N]
    P0 = aom_powers(case)
    tot = sum(P0.values())
    # scale of the responses: the angles of the modulators
    ang = max([1.] + [np.pi / 2 * st[1] for st in case['seq'] if st[0] == 'AOM'])
    for key in got[0]:
        v = [g[key] for g in got]
        e1 = [2 * v[1] - v[0], 2 * v[2] - v[1]]
        ext = (4 * e1[1] - e1[0]) / 3
        if key[0] == 'power':
            want, sc = P0[key[1]], tot
        elif key[0] == 'response':
            h = 1e-5
            want = (aom_powers(case, {key[2:]: h})[key[1]] - aom_powers(case, {key[2:]: -h})[key[1]]) / (2 * h) / 2
            sc = tot * ang
        else:
            # every port is unitary: the noise is that of shot noise
            want, sc = (2 * P0[key[1]] if key[1] == key[2] else 0.), 2 * tot
        ctx.require(bool(np.all(abs(ext - want) <= 4e-3 * sc)),
                    lambda: "{0} of {1}: got {2} (N_ode {3}), extrapolated {4}, expected {5}".format(key, case, v, A_N, ext, want))
        ctx.step(len(F_AC))
    ctx.cls('{0} modulators'.format(sum(st[0] == 'AOM' for st in case['seq'])))
    ctx.state(case)
    ctx.trace()


def cases_aom(tier):
    quick = tier == 'quick'
    one = [('A', 0, 1., 0.)]
    # one modulator: every input port, direction, amplitude
    srcs = [one, [('B', 0, .8, 40.)], [('A', 0, 1., 0.), ('B', 0, .5, 25.)]]
    for rev in (0, 1):
        for amp in (.15, .5, .9) if quick else (0., .15, .3, .5, .7, .9, 1.):
            for src in srcs:
                yield dict(order=2, src=src, seq=[('AOM', amp, 0., rev, 1)], noise=amp != .15)
            # two inputs of the frequencies which mix
            for ph in (0., 70.) if quick else (0., 70., 135., -100.):
                n = -1 if rev else 1
                for src in ([('A', 0, 1., 0.), ('B', n, .5, ph)], [('A', -n, .6, ph), ('B', 0, 1., 10.)]):
                    yield dict(order=2, src=src, seq=[('AOM', amp, 30., rev, 1)], noise=amp == .5)
        # without a drive, alone and next to a driven one: all light is transmitted
        for src in srcs:
            yield dict(order=2, src=src, seq=[('AOM', 0., 0., rev, None)], noise=True)
            for rev2 in (0, 1):
                yield dict(order=2, src=src, seq=[('AOM', 0., 0., rev, None), ('AOM', .4, 20., rev2, 1)], noise=rev != rev2)
                if not quick:
                    yield dict(order=2, src=src, seq=[('AOM', .4, 20., rev2, 1), ('SWAP',), ('AOM', 0., 0., rev, None)], noise=rev == rev2)
        # light of the highest order which is kept
        for p in 'AB':
            for n in (-1, 1):
                yield dict(order=1, src=[(p, n, 1., 0.)], seq=[('AOM', .4, 20., rev, 1)], noise=True)
        for n in (-1, 1):
            yield dict(order=1, src=[('A', n, 1., 0.), ('B', n, .6, 50.)], seq=[('AOM', .6, 20., rev, 1)], noise=True)
    # two modulators, one generator or two
    k = 0
    for rev1 in (0, 1):
        for rev2 in (0, 1):
            for swap in (0, 1):
                for port, L, det in (('A', .37, 2e-7), ('B', .2, 1e-7)):
                    for g2 in (1, 2):
                        k += 1
                        if quick and k % 2 == (rev1 + swap) % 2:
                            continue
                        a2 = ('AOM', .4, 20., rev2, 1) if g2 == 1 else ('AOM', .6, -35., rev2, 2)
                        mid = [('SP', port, L, det)] + [('SWAP',)] * swap
                        for src in (one,) if quick else (one, srcs[2]):
                            yield dict(order=3, src=src, seq=[('AOM', .4, 20., rev1, 1)] + mid + [a2], noise=not quick or k % 3 == 0)


FAMILIES = [
    Family('crystal', cases_crystal, run_crystal, "all sequences of up to 2 (3) crystals, spaces and losses with at least one crystal, 6 inputs of both colours, single and double pass: powers, responses, quantum noise", chunk=1),
    Family('strength', cases_strength, run_crystal, "one crystal, all combinations of strengths, powers of both colours and phases: powers", chunk=2),
    Family('quadratures', cases_quad, run_quad, "the crystals, inputs and directions of the first family (a third of the pairs of elements), all 16 correlations of the quadratures of both colours relative to light of 2 phases", chunk=1),
    Family('stands', cases_stand, run_stand, "models of crystal test stands (3 stands x 2 or 3 crystals, 3 orders): powers and noise matrices", chunk=1),
    Family('aom', cases_aom, run_aom, "one acousto optic modulator (2 directions, all inputs, amplitudes, coherent pairs of inputs) and all two modulator interferometers over 2 directions each, exchange of arms, detuned arm, shared or separate generators: powers, responses to modulated drives, noise", chunk=1),
]
