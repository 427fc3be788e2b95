# -*- coding: utf-8 -*-
"""
Signal block diagrams: filters, sums, mixers, modulators and their feedback loops.
"""
import itertools
import numpy as np
from mc.core import Family, Violation
from mc import sigref

ASSUMPTIONS = [
    "oracle of the products: coefficients of the Fourier series of the real time signals, first order in the AC drive",
    "oracle of the diagrams: dense (1-G)^-1 at each frequency; diagrams with a condition number above 1e6 are not judged",
    "products are judged where the limit of the order of the frequencies does not truncate them",
]
G, H_, K = (.7, .4), (.9, -.8), (.5, 1.1)     # amplitude, phase of the generators


def S():
    import phasor.signals as signals
    return signals


# --------------------------------------------------------------------------- filters
def rat(zr=(), pr=(), zc=(), pc=(), gain=1., delay=0., F0=0.):
    def h(f):
        x = 1.
        for r in zr:
            x = x * (1 - 1j * f / r)
        for r in zc:
            x = x * (1 - 1j * f / r) * (1 - 1j * f / np.conj(r))
        for r in pr:
            x = x / (1 - 1j * f / r)
        for r in pc:
            x = x / ((1 - 1j * f / r) * (1 - 1j * f / np.conj(r)))
        return x
    n = abs(h(F0)) if F0 else 1.
    return lambda f: h(f) * gain * np.exp(-2j * np.pi * f * delay) / n


def rational(**kw):
    k = dict((b, kw[a]) for a, b in (('zr', 'zeros_r'), ('pr', 'poles_r'), ('zc', 'zeros_c'), ('pc', 'poles_c'), ('gain', 'gain'), ('delay', 'delay_s'), ('F0', 'gain_F_Hz')) if a in kw)
    k.setdefault('gain', 1.)
    return (lambda: S().SRationalFilter(**k)), rat(**kw)


def ss(A, B, C, D):
    A, B, C, D = (np.array(x, dtype=float) for x in (A, B, C, D))
    n = A.shape[0]
    return (lambda: S().StateSpaceModel(names_in=['u{0}'.format(i) for i in range(B.shape[1])], names_out=['y{0}'.format(i) for i in range(C.shape[0])], A=A, B=B, C=C, D=D)), \
        (lambda f: C.dot(np.linalg.solve(2j * np.pi * f * np.eye(n) - A, B)) + D)


def siso_ss(*ABCD):
    mk, h = ss(*ABCD)
    return mk, lambda F: np.array([h(f)[0, 0] for f in F])


def res(m, f0, w):
    return (lambda: S().TransferFunctionSISOMechSingleResonance(mass_kg=m, center_Hz=f0, FWHM_Hz=w)), (lambda f: 1 / (m * (2 * np.pi)**2) / (f0**2 - f**2 + 1j * w * f))


def resq(m, f0, q):
    return (lambda: S().TransferFunctionSISOMechSingleResonance(mass_kg=m, center_Hz=f0, q_factor=q)), (lambda f: 1 / (m * (2 * np.pi)**2) / (f0**2 - f**2 + 1j * f0 / q * f))


def siso(h):
    return (lambda: S().TransferFunctionSISO(filter_func=h)), h


def filters():
    L = []
    roots_r = [(), (-3.,), (-3., -40.), (5.,)]
    roots_c = [(), (-2. + 7j,), (-2. - 7j, -1. + 50j)]
    for zr, pr, zc, pc in itertools.product(roots_r, roots_r, roots_c, roots_c):
        L.append(('rational', rational(zr=zr, pr=pr, zc=zc, pc=pc)))
    for gain, delay, F0 in itertools.product([1., -2.5], [0., .013], [0., 3., 40.]):
        L.append(('rational+', rational(zr=(-3.,), pr=(-40.,), pc=(-2. + 7j,), gain=gain, delay=delay, F0=F0)))
    L.append(('integrator', ((lambda: S().Integrator()), lambda f: 1 / (-1j * f))))
    for g in (3., -.5):
        L.append(('gain', ((lambda g=g: S().Gain(gain=g)), lambda f, g=g: g + 0 * f)))
    L.append(('gain', ((lambda: S().Gain()), lambda f: 1 + 0 * f)))
    for m, f0, w in itertools.product([1., 40.], [3., 17.], [.2, 5.]):
        L.append(('resonance', res(m, f0, w)))
        L.append(('resonance', resq(m, f0, f0 / w)))
    L.append(('siso', siso(lambda f: 1 / (1 + 1j * np.asarray(f) / 5))))
    L.append(('siso', siso(lambda f: 2 - .1j * np.asarray(f))))
    return L


FS = np.array([.8, 3., 17., 230.])


def io(el):
    try:
        return el.ps_In, el.ps_Out
    except AttributeError:
        return el.pS_in['u0'], el.pS_out['y0']


def filters_run(case, ctx):
    import phasor.system as system
    import phasor.readouts as ro
    import phasor.base as base
    i, opt, arr = case
    kind, (mk, h) = filters()[i]
    F = FS if arr else FS[1]
    s = system.BGSystem(F_AC=F)
    f1 = 2.
    s.own.F1 = base.Frequency(F_Hz=f1, order=2)
    x = mk()
    s.own.pre = S().DistributionAmplifier(port_gains=dict(o1=2.))
    s.own.x = x
    kw = {}
    s.own.g = S().SignalGenerator(F=s.F1, amplitude=.7)
    s.own.add = S().SummingAmplifier(port_gains=dict(I1=1., I2=1.))
    s.bond(s.g.ps_Out, s.add.I1)
    s.bond(s.add.ps_Out, s.pre.ps_In)
    a, b = io(s.x)
    s.bond(s.pre.o1, a)
    s.own.r = ro.ACReadout(portD=s.add.I2.i, portN=b.o)
    s.own.k = key_readout({s.F1: 1}, b.o)
    ctx.close(s.r.AC_sensitivity, 2 * h(F), '{0} #{1} at F_AC={2}'.format(kind, i, F), rtol=1e-9, atol=1e-12)
    ctx.close(s.k.value(), 1.4 * h(f1), '{0} #{1} at {2} Hz'.format(kind, i, f1), rtol=1e-9, atol=1e-12)
    ctx.step(2)
    ctx.trace()
    ctx.state(i, opt, arr)
    ctx.cls(kind)


def filters_cases(tier):
    return [(i, 0, arr) for i in range(len(filters())) for arr in (0, 1)]


# cutoffs
def cut_run(case, ctx):
    """a filter passes exactly the components between its cutoffs, and not DC with no_DC"""
    import phasor.system as system
    import phasor.base as base
    no_DC, hi, lo, kind = case
    s = system.BGSystem()
    s.own.F1 = base.Frequency(F_Hz=1e6, order=3)
    s.own.g = S().SignalGenerator(F=s.F1, amplitude=.7)
    s.own.h = S().SignalGenerator(F=s.F1, amplitude=.9, harmonic_gains={2: .5, 3: .3})
    s.own.sum = S().SummingAmplifier(port_gains=dict(a=1, b=1, c=1, d=1))
    s.own.m = S().Mixer()
    s.own.g2 = S().SignalGenerator(F=s.F1, amplitude=1.)
    s.own.dis = S().DistributionAmplifier(port_gains=dict(o1=1, o2=1))
    s.bond(s.g.ps_Out, s.m.ps_In)
    s.bond(s.g2.ps_Out, s.m.ps_LO)
    s.bond(s.m.ps_R_I, s.sum.a)
    s.bond(s.h.ps_Out, s.sum.b)
    s.bond(s.h.OutH2, s.sum.c)
    s.bond(s.h.OutH3, s.sum.d)
    kw = dict(no_DC=no_DC, F_cutoff=hi, F_cutoff_low=lo)
    s.own.x = S().Gain(gain=2., **kw) if kind == 0 else S().SRationalFilter(gain=2., **kw)
    s.bond(s.sum.ps_Out, s.x.ps_In)
    want = {0: .35, 1: .9, 2: .5 + .35, 3: .3}
    for n in range(4):
        setattr(s.own, 'k{0}'.format(n), key_readout({s.F1: n} if n else {}, s.x.ps_Out.o))
    for n in range(4):
        f = n * 1e6
        w = 2 * want[n]
        if f > hi or f < lo or (no_DC and n == 0):
            w = 0
        ctx.close(getattr(s, 'k{0}'.format(n)).value(), w, 'component {0} behind a filter with {1}'.format(n, kw), rtol=1e-9, atol=1e-12)
        ctx.step()
    ctx.trace()
    ctx.state(*case)


def cut_cases(tier):
    E = [.5e6, 1e6, 1.5e6, 2e6, 3e6]
    return [(nd, hi, lo, k) for nd in (False, True) for hi in E + [float('inf')] for lo in [0] + E for k in (0, 1)]


# --------------------------------------------------------------------------- products
_KR = None


def key_readout(fd, port, drive=None):
    """the amplitude of one frequency component at a port, or its response to a drive at the AC frequency"""
    global _KR
    import phasor.base as base
    if _KR is None:
        class KeyReadout(base.SystemElementBase):
            def __init__(self, fd, port, drive=None, **kwargs):
                super().__init__(**kwargs)
                fd = dict((F, n) for F, n in fd.items() if n)
                self.port = port
                self.drive = drive
                self.key = base.DictKey({base.ClassicalFreqKey: base.FrequencyKey(fd)})
                self.pset = 'DC' if drive is None else 'AC'
                if drive is not None:
                    self.dkey = base.DictKey({base.ClassicalFreqKey: base.FrequencyKey({self.system.F_AC: 1})})

            def system_setup_ports_initial(self, system):
                system.readout_port_needed(self.port, self.key, [self.pset])
                if self.drive is not None:
                    system.drive_port_needed(self.drive, self.dkey, [self.pset])

            def value(self):
                if self.drive is None:
                    return self.system.solution.driven_solution_get('DC').solution.get((self.port, self.key), 0)
                c = self.system.solution.coupling_solution_get(drive_set='AC', readout_set='AC')
                return c.coupling_matrix_inv.get(((self.drive, self.dkey), (self.port, self.key)), 0)
        _KR = KeyReadout
    return _KR(fd, port, drive)


F_AC = 7.
LEAVES = ['g', 'h', 'k', 'o', 'd']
BIN = ['I', 'Q', 'A', 'P', 'M', '+', 'T']
UN = ['S', 'R', 'W', 'N']
PH = .6      # phase of the modulators
WH = rat(zr=(-2e6,), pr=(-1e6,), gain=1.3)


def ref(t):
    """reference signal of a tree"""
    op = t[0]
    if op in ('g', 'h', 'k', 'o'):
        a, ph = {'g': G, 'h': H_, 'k': K, 'o': (.35 * np.exp(.2j), 2 * .3)}[op]
        n = {'g': (1, 0), 'h': (2, 0), 'k': (0, 1), 'o': (2, 0)}[op]
        c = a * np.exp(1j * ph) / 2
        return sigref.Sig({n: c, tuple(-x for x in n): np.conj(c)})
    if op == 'd':
        return sigref.Sig({}, {(0, 0): .5})
    x = ref(t[1])
    if op == 'S':
        return sigref.square(x)
    if op == 'R':
        return sigref.filt(x, WH, F_AC)
    if op == 'N':
        return sigref.filt(x, lambda f: 1 / (-1j * f), F_AC, no_dc=True)
    if op == 'W':
        return sigref.meansq(x)
    y = ref(t[2])
    if op == 'I':
        return sigref.prod(x, y)
    if op == 'Q':
        return sigref.prod(x, sigref.hilbert(y, F_AC))
    if op == '+':
        return sigref.plus(sigref.Sig(sigref.mapf(x.c0, lambda n: .8), sigref.mapf(x.c1, lambda n: .8)), y)
    xr = sigref.rotate(x, PH)
    if op == 'T':      # amplitude and phase modulated by the same signal
        return sigref.plus(xr, sigref.plus(sigref.prod(sigref.rotate(x, PH), y), sigref.prod(sigref.hilbert(xr, F_AC), y)))
    if op == 'A':
        return sigref.plus(xr, sigref.prod(xr, y))
    if op == 'M':
        y = sigref.filt(y, lambda f: 1 / (-1j * f), F_AC, no_dc=True)
    return sigref.plus(xr, sigref.prod(sigref.hilbert(xr, F_AC), y))


def grow(s, t, n, drives):
    """builds the tree, returns the output port"""
    sig = S()
    op = t[0]
    name = 'n{0}'.format(n[0])
    n[0] += 1
    if op in ('g', 'h', 'k', 'o'):
        kw = {'g': dict(F=s.F1, amplitude=G[0], phase_rad=G[1]),
              'h': dict(F=s.F1, multiple=2, amplitude=H_[0], phase_rad=H_[1]),
              'k': dict(F=s.F2, amplitude=K[0], phase_rad=K[1]),
              'o': dict(F=s.F1, amplitude=1., phase_rad=.3, harmonic_gains={2: .35 * np.exp(.2j)})}[op]
        el = s.insert(sig.SignalGenerator(**kw), name)
        return el.OutH2 if op == 'o' else el.ps_Out
    if op == 'd':
        el = s.insert(sig.SummingAmplifier(port_gains=dict(I1=1.)), name)
        drives.append(el.I1.i)
        return el.ps_Out
    x = grow(s, t[1], n, drives)
    if op == 'S':
        el = s.insert(sig.Harmonic2Generator(), name)
        s.bond(x, el.ps_In)
        return el.ps_Out
    if op == 'R':
        el = s.insert(sig.SRationalFilter(zeros_r=(-2e6,), poles_r=(-1e6,), gain=1.3), name)
        s.bond(x, el.ps_In)
        return el.ps_Out
    if op == 'N':
        el = s.insert(sig.Integrator(), name)
        s.bond(x, el.ps_In)
        return el.ps_Out
    if op == 'W':
        el = s.insert(sig.MeanSquareMixer(), name)
        s.bond(x, el.ps_In)
        return el.MS
    y = grow(s, t[2], n, drives)
    if op in 'IQ':
        el = s.insert(sig.Mixer(), name)
        s.bond(x, el.ps_In)
        s.bond(y, el.ps_LO)
        return el.ps_R_I if op == 'I' else el.ps_R_Q
    if op == '+':
        el = s.insert(sig.SummingAmplifier(port_gains=dict(I1=.8, I2=1.)), name)
        s.bond(x, el.I1)
        s.bond(y, el.I2)
        return el.ps_Out
    el = s.insert(sig.Modulator(phase_rad=PH), name)
    s.bond(x, el.ps_In)
    if op == 'A':
        s.bond(y, el.Mod_amp)
    elif op == 'P':
        s.bond(y, el.Mod_phase)
    elif op == 'M':
        s.bond(y, el.Mod_freq)
    else:
        d = s.insert(sig.DistributionAmplifier(port_gains=dict(o1=1., o2=1.)), name + 'd')
        s.bond(y, d.ps_In)
        s.bond(d.o1, el.Mod_amp)
        s.bond(d.o2, el.Mod_phase)
    return el.ps_Out


def leaves_of(t):
    if len(t) == 1:
        return [t[0]]
    return [l for x in t[1:] for l in leaves_of(x)]


def mix_run(t, ctx):
    import phasor.system as system
    import phasor.base as base
    r = ref(t)
    s = system.BGSystem(F_AC=F_AC)
    L = leaves_of(t)
    o1, o2 = orders(t)
    s.own.F1 = base.Frequency(F_Hz=sigref.FC[0], order=max(o1, 1))
    s.own.F2 = base.Frequency(F_Hz=sigref.FC[1], order=max(o2, 1))
    drives = []
    out = grow(s, t, [0], drives)
    keys = []
    sc = max([abs(v) for v in r.c0.values()] + [0])
    comps = set(r.c0) | {(0, 0), (1, 0), (0, 1), (2, 0)}
    for m in sorted(comps):
        if m < (0, 0) or m[0] > o1 or abs(m[1]) > o2:
            continue
        k = 'k{0}_{1}'.format(*m).replace('-', 'm')
        setattr(s.own, k, key_readout({s.F1: m[0], s.F2: m[1]}, out.o))
        keys.append((k, m, sigref.amplitude(m, r.c0.get(m, 0)), sc))
    if drives:
        sc1 = max([abs(v) for v in r.c1.values()] + [0])
        for m in sorted(set(r.c1) | {(0, 0), (1, 0)}):
            if m[0] > o1:
                continue
            k = 'a{0}_{1}'.format(*m).replace('-', 'm')
            setattr(s.own, k, key_readout({s.F1: m[0], s.F2: m[1], s.F_AC: 1}, out.o, drives[0]))
            keys.append((k, m, 2 * r.c1.get(m, 0), sc1))
    for k, m, want, sc in keys:
        ctx.close(getattr(s, k).value(), want, '{0}: {1} of component {2}'.format(show(t), 'response' if k[0] == 'a' else 'amplitude', m), rtol=1e-9, atol=1e-9 * sc + 1e-14)
        ctx.step()
    ctx.trace()
    ctx.state(show(t))
    ctx.cls('tree of root ' + t[0])


def show(t):
    if len(t) == 1:
        return t[0]
    return '{0}({1})'.format(t[0], ', '.join(show(x) for x in t[1:]))


ORDER = 4


def orders(t):
    """the largest multiple of each frequency in any intermediate signal"""
    r = ref(t)
    o = [max([abs(n[i]) for n in list(r.c0) + list(r.c1)] or [0]) for i in (0, 1)]
    for x in t[1:]:
        o = [max(a, b) for a, b in zip(o, orders(x))]
    return o


def trees(n, leaves):
    """all trees with n operators"""
    if n == 0:
        return [(l,) for l in leaves]
    out = []
    for x in trees(n - 1, leaves):
        for u in UN:
            out.append((u, x))
    for i in range(n):
        for x in trees(i, leaves):
            for y in trees(n - 1 - i, leaves):
                for b in BIN:
                    out.append((b, x, y))
    return out


def judged(t):
    L = leaves_of(t)
    if L.count('d') > 1:
        return False
    r = ref(t)
    if not r.c0 and not r.c1:
        return False
    o1, o2 = orders(t)
    return (2 * o1 + 1) * (2 * o2 + 1) <= 25 and o1 <= ORDER


def mix_cases(tier):
    out = [t for t in trees(1, LEAVES) if judged(t)]
    small = ['g', 'd', 'k'] if tier == 'quick' else ['g', 'h', 'd', 'k']
    for t in trees(2, small):
        if judged(t):
            o1, o2 = orders(t)
            if tier != 'quick' or o2 == 0 or (2 * o1 + 1) * (2 * o2 + 1) <= 9:
                out.append(t)
    return out



# --------------------------------------------------------------------------- diagrams
DF = np.array([.8, 3., 17.])


def palette():
    arr = np.array([.3 + .1j, -.5j, .2])
    return [
        rational(zr=(-3.,), pr=(-40., -2.), gain=.7),
        rational(pc=(-2. + 7j,), gain=-.6, delay=.02),
        ((lambda: S().TFACArray(gain_array=arr)), lambda f: arr),
        siso_ss([[-9., 3.], [-4., -2.]], [[1.], [5.]], [[2., -1.]], [[.5]]),
        ((lambda: S().Integrator()), lambda f: 1 / (-1j * f)),
        (res(1e-3, 6., 2.)),
        ((lambda: S().Gain(gain=-.45)), lambda f: -.45 + 0 * f),
        siso(lambda f: 1 / (1 + .2j * np.asarray(f))),
    ]


def gain(i, j):
    return [[.8, -.6, .5], [-.7, .4, .9], [.6, .3, -.5]][i][j]


def diag_run(case, ctx):
    import phasor.system as system
    import phasor.readouts as ro
    n, edges, pal, solver = case
    edges = [tuple(e) for e in edges]
    P = palette()
    els = [P[p] for p in pal]
    Hs = [np.asarray(h(DF)).reshape(-1) * np.ones(3) for mk, h in els]
    CL = []
    for k in range(3):
        M = np.zeros((n, n), dtype=complex)
        for i, j in edges:      # output of j goes to the input of i
            M[i, j] = gain(i, j) * 1.1 * Hs[j][k]
        A = np.eye(n) - M
        if np.linalg.cond(A) > 1e6:
            ctx.cls('ill posed: skipped')
            return
        CL.append(np.linalg.inv(A))
    CL = np.array(CL)
    s = system.BGSystem(F_AC=DF, **(dict(solver_name=solver) if solver else {}))
    for i in range(n):
        pg = dict(e=1.)
        pg.update(('i{0}'.format(j), gain(i, j)) for a, j in edges if a == i)
        s.insert(S().SummingAmplifier(port_gains=pg), 'sum{0}'.format(i))
        pg = dict(out=1.)
        pg.update(('o{0}'.format(a), 1.1) for a, j in edges if j == i)
        s.insert(S().DistributionAmplifier(port_gains=pg), 'dis{0}'.format(i))
        s.insert(els[i][0](), 'h{0}'.format(i))
    su = [getattr(s, 'sum{0}'.format(i)) for i in range(n)]
    di = [getattr(s, 'dis{0}'.format(i)) for i in range(n)]
    for i in range(n):
        a, b = io(getattr(s, 'h{0}'.format(i)))
        s.bond(su[i].ps_Out, a)
        s.bond(b, di[i].ps_In)
    for i, j in edges:
        s.bond(getattr(di[j], 'o{0}'.format(i)), getattr(su[i], 'i{0}'.format(j)))
    want = {}
    ASD = [.3, .7, 1.9]
    for i in range(n):
        if i == 2:
            s.insert(S().PSDFunctionNoise(port=su[i].e, PSD_function=lambda f: 3.61 * (1 + f**2), sided='one-sided'), 'n{0}'.format(i))
        else:
            s.insert(S().WhiteNoise(port=su[i].e, magnitude_ASD=ASD[i], sided=['one-sided', 'two-sided'][i]), 'n{0}'.format(i))
    psd = [.09, 2 * .49, 3.61 * (1 + DF**2)]
    for i in range(n):
        for j in range(n):
            T = Hs[j] * CL[:, j, i]
            nm = 'r{0}{1}'.format(i, j)
            if (i + j) % 2:
                s.insert(ro.ACReadoutCLG(portD=su[i].e.i, portN=di[j].out.o), nm)
            else:
                s.insert(ro.ACReadout(portD=su[i].e.i, portN=di[j].out.o), nm)
            want[nm] = T
        s.insert(ro.ACReadoutLG(portSense=su[i].ps_Out.o), 'lg{0}'.format(i))
        # from the input sum of i to the output of another block, driven at the external input of a third
        j, d = (i + 1) % n, (i + 2) % n
        s.insert(ro.ACReadoutLG(portSense=di[j].out.o, portAct=su[i].ps_Out.o, portDrv=su[d].e.i), 'gp{0}'.format(i))
        s.insert(ro.ACReadout(portD=su[i].ps_Out.o, portN=di[j].out.o, portDrv=su[d].e.i), 'ol{0}'.format(i))
    for nm, T in want.items():
        r = getattr(s, nm)
        sc = np.max(abs(T))
        ctx.close(r.AC_sensitivity, T, '{0}: response {1}'.format(case, nm), rtol=1e-7, atol=1e-9 * sc + 1e-14)
        j = int(nm[2])
        N = sum(abs(Hs[j] * CL[:, j, k])**2 * psd[k] for k in range(n))
        ctx.close(r.AC_PSD, N, '{0}: noise at output {1}'.format(case, j), rtol=1e-6)
        if abs(T).min() > 1e-9:
            ctx.close(r.AC_noise_limited_sensitivity, (N**.5) / abs(T), '{0}: noise limited sensitivity {1}'.format(case, nm), rtol=1e-6)
        for k in range(n):
            nk = getattr(s, 'n{0}'.format(k))
            ctx.close(r.AC_PSD_by_source.get(nk, 0), abs(Hs[j] * CL[:, j, k])**2 * psd[k], '{0}: noise of source {1} at output {2}'.format(case, k, j), rtol=1e-6, atol=1e-9 * np.max(N))
        ctx.step()
    for i in range(n):
        c = CL[:, i, i]
        r = getattr(s, 'lg{0}'.format(i))
        ctx.close(r.CLG, c, '{0}: closed loop gain of block {1}'.format(case, i), rtol=1e-7, atol=1e-10)
        if abs(c).min() > 1e-9:
            ctx.close(r.OLG, (1 - c) / c, '{0}: open loop gain of block {1}'.format(case, i), rtol=1e-6, atol=1e-8)
        j, d = (i + 1) % n, (i + 2) % n
        num, den = Hs[j] * CL[:, j, d], CL[:, i, d]
        if abs(den).min() > 1e-9:
            ctx.close(getattr(s, 'gp{0}'.format(i)).GPlant, num / den, '{0}: plant gain from {1} to {2} driven at {3}'.format(case, i, j, d), rtol=1e-6, atol=1e-9)
            ctx.close(getattr(s, 'ol{0}'.format(i)).AC_sensitivityOL, num / den, '{0}: response from {1} to {2} driven at {3}'.format(case, i, j, d), rtol=1e-6, atol=1e-9)
        ctx.step()
    ctx.trace()
    ctx.state(*case)
    ctx.cls('diagram of {0} blocks and {1} links'.format(n, len(edges)))


def diag_cases(tier):
    np_ = len(palette())
    out = []
    E2 = [(i, j) for i in range(2) for j in range(2)]
    for m in range(16):
        e = [x for k, x in enumerate(E2) if m >> k & 1]
        for p in itertools.product(range(np_), repeat=2):
            if tier == 'quick' and (p[0] * 3 + p[1] + m) % 3:
                continue
            out.append((2, e, p, None))
    E3 = [(i, j) for i in range(3) for j in range(3)]
    for m in range(512):
        e = [x for k, x in enumerate(E3) if m >> k & 1]
        for v in range(1 if tier == 'quick' else np_):
            a = (m + v) % np_
            out.append((3, e, (a, (3 * a + 1 + v + m // 8) % np_, (5 * a + 2 + m // 64) % np_), None))
    return out


# --------------------------------------------------------------------------- multiple inputs and outputs
def mimo_run(case, ctx):
    import phasor.system as system
    import phasor.readouts as ro
    kind, bits, fb, maxf = case
    F = DF
    M2 = lambda b, v: np.array([[v[0] * (b & 1), v[1] * (b >> 1 & 1)], [v[2] * (b >> 2 & 1), v[3] * (b >> 3 & 1)]], dtype=float)
    s = system.BGSystem(F_AC=F)
    if kind == 'ss':
        a, b, c, d = bits
        A, B, C, D = M2(a, [-9., 30., -4., -20.]), M2(b, [10., 2., -30., 4.]), M2(c, [1., .7, -2., .5]), M2(d, [.5, -.4, .3, .2])
        s.own.x = S().StateSpaceModel(names_in=['a', 'b'], names_out=['a', 'b'], A=A, B=B, C=C, D=D, max_freq=maxf)
        H = np.array([C.dot(np.linalg.solve(2j * np.pi * f * np.eye(2) - A, B)) + D for f in F])
        ins, outs = [s.x.pS_in['a'], s.x.pS_in['b']], [s.x.pS_out['a'], s.x.pS_out['b']]
    else:
        D = M2(bits, [.5, -.4, .3, .2])
        names = {(i, o): D[j, k] for k, i in enumerate('ab') for j, o in enumerate('ca') if D[j, k]}
        if kind == 'matrix':
            s.own.x = S().MatrixAmplifier(port_pair_gains=names)
            H = np.array([D for f in F])
        else:
            s.own.x = S().TransferFunctionMIMO(port_pair_xfers=dict((k, lambda f, v=v: v / (1 + 1j * np.asarray(f) * v)) for k, v in names.items()), max_freq=maxf)
            H = np.array([D / (1 + 1j * f * D) for f in F])
        ins = [s.x.ps_In[k] if k in s.x.ps_In else None for k in 'ab']
        outs = [s.x.O[k] if k in s.x.O else None for k in 'ca']
    if maxf is not None and np.all(F > maxf):
        H = H * 0
    A = np.array([np.eye(2) - .5 * fb * h for h in H])
    if any(np.linalg.cond(a) > 1e6 for a in A):
        ctx.cls('ill posed: skipped')
        return
    T = np.array([h.dot(np.linalg.inv(a)) for a, h in zip(A, H)])
    for k in range(2):
        if ins[k] is not None:
            s.insert(S().SummingAmplifier(port_gains=dict(e=1., f=.5)), 'sum{0}'.format(k))
            s.bond(getattr(s, 'sum{0}'.format(k)).ps_Out, ins[k])
        if outs[k] is not None:
            s.insert(S().DistributionAmplifier(port_gains=dict(o=1., f=1.)), 'dis{0}'.format(k))
            s.bond(outs[k], getattr(s, 'dis{0}'.format(k)).ps_In)
            if fb and ins[k] is not None:
                s.bond(getattr(s, 'dis{0}'.format(k)).f, getattr(s, 'sum{0}'.format(k)).f)
    for i in range(2):
        for j in range(2):
            if ins[i] is not None and outs[j] is not None:
                s.insert(ro.ACReadout(portD=getattr(s, 'sum{0}'.format(i)).e.i, portN=getattr(s, 'dis{0}'.format(j)).o.o), 'r{0}{1}'.format(i, j))
    for i in range(2):
        for j in range(2):
            if ins[i] is not None and outs[j] is not None:
                ctx.close(getattr(s, 'r{0}{1}'.format(i, j)).AC_sensitivity, T[:, j, i], '{0}: response of output {1} to input {2}'.format(case, j, i), rtol=1e-8, atol=1e-10)
                ctx.step()
    ctx.trace()
    ctx.state(*case)
    ctx.cls(kind)


def mimo_cases(tier):
    P = [15, 9, 3, 6, 1, 0] if tier == 'quick' else list(range(16))
    out = []
    for a in range(16):
        for b in P[:4] if tier == 'quick' else P:
            for c in P[:4] if tier == 'quick' else P:
                for d in (15, 0, 2, 5) if tier == 'quick' else P:
                    out.append(('ss', (a, b, c, d), (a + b + c + d) % 2, None))
    for kind in ('matrix', 'mimo'):
        for b in range(1, 16):
            for fb in (0, 1):
                out.append((kind, b, fb, None))
    for kind, b in (('ss', (15, 15, 15, 15)), ('ss', (9, 15, 6, 0)), ('mimo', 15), ('mimo', 6)):
        for fb in (0, 1):
            for mf in (.5, 900., 1e3, 1001., 2e3):
                out.append((kind, b, fb, mf))
    return out


FAMILIES = [
    Family('filters', filters_cases, filters_run, 'every filter type and 160 root sets, delays and gains, scalar and array frequencies, at AC and at a carrier'),
    Family('cutoffs', cut_cases, cut_run, 'no_DC and all pairs of cutoffs against a spectrum of DC and three harmonics'),
    Family('products', mix_cases, mix_run, 'all expression trees of 1 operator over 5 leaves and of 2 operators over 3 (4 in the thorough tier) leaves'),
    Family('diagrams', diag_cases, diag_run, 'all directed graphs of 2 and of 3 blocks, with self loops, blocks from a palette of 8 filters; all responses, loop gains and noises'),
    Family('mimo', mimo_cases, mimo_run, 'sparsity patterns of 2 by 2 state space models, matrix amplifiers and transfer matrices, with and without feedback and frequency limits'),
]
